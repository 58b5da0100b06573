from contract import contract
P, T = 'P25', 'p25.cpp'
from fractions import Fraction
TT = Fraction(2, 3)
V = {1: 1, 2: 3, 3: 6}
REF = {1: ['e11'], 2: ['e11', 'e22', 'e12'], 3: ['e11', 'e22', 'e33', 'e23', 'e13', 'e12']}
OPT = ['RayleighA', 'RayleighB', 'Pressure Scaling', 'Mass Density']
ORT = {1: ['Youngs Modulus', 'Poissons Ratio'], 2: ['Youngs Modulus X', 'Youngs Modulus Y', 'Shear Modulus XY', 'Poissons Ratio XY'],
       3: ['Youngs Modulus X', 'Youngs Modulus Y', 'Youngs Modulus Z', 'Shear Modulus XY', 'Shear Modulus XZ', 'Shear Modulus YZ', 'Poissons Ratio XY', 'Poissons Ratio XZ', 'Poissons Ratio YZ']}
EL = {D: REF[D] + OPT + ['Youngs Modulus', 'Poissons Ratio', 'E', 'v', 'C11', 'C12', 'C44'] + (ORT[D] if D > 1 else []) for D in REF}
EM = ['Alpha', 'Youngs Modulus', 'Poissons Ratio', 'e15', 'e31', 'e33', 'p11', 'p33']
TL = ['Reference Temperature', 'Mass Density', 'Specific Heat', 'Temperature Scaling', 'Pressure Scaling', 'Youngs Modulus', 'Poissons Ratio', 'Thermal Expansion Coefficient', 'Thermal Conductivity Coefficient',
      'a11', 'a22', 'a33', 'k11', 'k22', 'k33']
class In:
    """entries of the input: some always given, some given or not, the rest absent"""
    def __init__(s, c, names, given, maybe, vals=None):
        s.c = c; s.ix = {n: k for k, n in enumerate(names)}; n = len(names); g = {s.ix[x] for x in given}; m = {s.ix[x] for x in maybe}
        def gen(rng, d): return [1 if k in g else rng.randrange(2) if k in m else 0 for k in range(n)]
        s.h = c.iview('h', [n], 0, 2, gen=gen); vals = vals or {}
        def genx(rng, d): return [vals[names[k]](rng) if names[k] in vals else rng.uniform(-2, 2) for k in range(n)]
        s.x = c.view('x', [n], gen=genx)
        for k in range(n):
            if k not in m: c.requires(c.eq(s.h(k), 1 if k in g else 0))
    def __call__(s, nm): return s.x(s.ix[nm])
    def has(s, nm): return s.c.ne(s.h(s.ix[nm]), 0)
    def get(s, nm, d): return s.c.If(s.has(nm), s(nm), d)
    def rng(s, nm, lo, hi): s.c.requires(s.c.And(s.c.ge(s(nm), s.c.num(lo)), s.c.le(s(nm), s.c.num(hi))))
NU = lambda g: g.choice([-0.45, -0.25, 0.0, 0.125, 0.3, 0.45])
POS = lambda g: g.uniform(0.5, 4.0)
def iso(D, co, v, one):
    """isotropic stiffness from the leading coefficient E/((1+v)(1-2v))"""
    W = V[D]; C = [[0] * W for _ in range(W)]
    for a in range(W):
        for b in range(W):
            if a < D and b < D: C[a][b] = co * (one - v) if a == b else co * v
            elif a == b: C[a][b] = co * (one - 2 * v) / 2
    return C
def nupre(c, v): c.requires(c.And(c.gt(v, c.num(-1)), c.lt(v, c.q(1, 2))))
def stiff(c, o, C, W, scale=None):
    for a in range(W):
        for b in range(W):
            e = C[a][b]
            c.ensure('stiffness %d,%d' % (a, b), lambda r, a=a, b=b, e=e: c.eq(r.new(o, a * W + b) * scale if scale is not None and not isinstance(e, int) else r.new(o, a * W + b), c.num(0) if isinstance(e, int) else e))
def common(c, D, o, i):
    W = V[D]
    for k, nm in enumerate(REF[D]): c.ensure('reference strain ' + nm, lambda r, k=k, nm=nm: c.eq(r.new(o, W * W + k), i.get(nm, c.num(0))))
    c.ensure('mass damping', lambda r: c.eq(r.new(o, W * W + W + 2), i.get('RayleighA', c.num(0)))); c.ensure('stiffness damping', lambda r: c.eq(r.new(o, W * W + W + 3), i.get('RayleighB', c.num(0))))
def density(c, D, o, i): W = V[D]; c.ensure('density', lambda r: c.eq(r.new(o, W * W + W), i.get('Mass Density', c.num(1))))
def pressure(c, D, o, i, K): W = V[D]; c.ensure('pressure scaling', lambda r: c.eq(r.new(o, W * W + W + 1), i.get('Pressure Scaling', K)))
def osize(D): return V[D] ** 2 + V[D] + 4
def isolist(c, D, call):
    i = In(c, EL[D], ['Youngs Modulus', 'Poissons Ratio'], REF[D] + OPT, {'Poissons Ratio': NU, 'Youngs Modulus': POS}); E, v = i('Youngs Modulus'), i('Poissons Ratio'); nupre(c, v)
    o = c.vec('o', osize(D)); call(i, o); c.modifies(o); den = (c.num(1) + v) * (c.num(1) - 2 * v)
    stiff(c, o, iso(D, E, v, c.num(1)), V[D], den); common(c, D, o, i); density(c, D, o, i); pressure(c, D, o, i, E / (c.num(3) * (c.num(1) - 2 * v)))
def cublist(c, D, call):
    i = In(c, EL[D], ['C11', 'C12', 'C44'][:1 if D == 1 else 3], REF[D] + OPT); o = c.vec('o', osize(D)); call(i, o); c.modifies(o); W = V[D]
    C = [[(i('C11') if a == b else i('C12')) if a < D and b < D else i('C44') if a == b else 0 for b in range(W)] for a in range(W)]; stiff(c, o, C, W); common(c, D, o, i)
def cuslist(c, D, call):
    i = In(c, EL[D], ['E', 'v'], REF[D] + OPT, {'v': NU, 'E': POS}); E, v = i('E'), i('v'); nupre(c, v); o = c.vec('o', osize(D)); call(i, o); c.modifies(o)
    stiff(c, o, iso(D, E * v, v, c.num(1)), V[D]); common(c, D, o, i); density(c, D, o, i); pressure(c, D, o, i, E / (c.num(3) * (c.num(1) - 2 * v)))
ORNG = {n: (POS if 'Modulus' in n else (lambda g: g.choice([-0.3, 0.0, 0.25, 0.3, 0.9, -1.5]))) for D in (2, 3) for n in ORT[D]}
def neg(g): return g.choice([-1.0, 1.0, 2.0])
def ortlist(c, D, call, simple=False):
    if D == 1:
        i = In(c, EL[1], ORT[1], REF[1] + OPT, {'Poissons Ratio': NU, 'Youngs Modulus': POS}); E, v = i('Youngs Modulus'), i('Poissons Ratio'); nupre(c, v); o = c.vec('o', osize(1)); call(i, o); c.modifies(o)
        stiff(c, o, iso(1, E, v, c.num(1)), 1, (c.num(1) + v) * (c.num(1) - 2 * v)); common(c, 1, o, i); density(c, 1, o, i); return
    i = In(c, EL[D], ORT[D], REF[D] + OPT, {**ORNG, **{n: (lambda g: 0.0) for n in ORT[D] if 'Ratio' in n}} if simple else ORNG); ax = 'XYZ'[:D]; E = [i('Youngs Modulus ' + a) for a in ax]; W = V[D]; o = c.vec('o', osize(D)); call(i, o); c.modifies(o); one = c.num(1)
    for e in E: c.requires(c.gt(e, c.num(0)))
    nu = {}
    for a in range(D):
        for b in range(a + 1, D): nu[a, b] = i('Poissons Ratio ' + ax[a] + ax[b]); nu[b, a] = nu[a, b] * E[b] / E[a]; c.requires(c.gt(i('Shear Modulus ' + ax[a] + ax[b]), c.num(0)))
    if simple:
        for k in nu:
            if k[0] < k[1]: c.requires(c.eq(nu[k], c.num(0)))
    # admissible elastic constants
    for a in range(D):
        for b in range(a + 1, D): c.requires(c.lt(nu[a, b] * nu[a, b] * E[b], E[a]))
    det = one - nu[0, 1] * nu[1, 0]
    if D == 3: det = one - nu[0, 1] * nu[1, 0] - nu[1, 2] * nu[2, 1] - nu[0, 2] * nu[2, 0] - 2 * nu[1, 0] * nu[2, 1] * nu[0, 2]
    c.requires(c.gt(det * E[0] if D == 2 else E[0] * E[1] - nu[0, 1] * nu[0, 1] * E[1] * E[1] - nu[1, 2] * nu[1, 2] * E[2] * E[0] - nu[0, 2] * nu[0, 2] * E[2] * E[1] - 2 * nu[0, 1] * nu[1, 2] * nu[0, 2] * E[2] * E[1], c.num(0))); c.throws_iff(False)
    if D == 2:
        C = [[E[0], nu[0, 1] * E[1], 0], [nu[0, 1] * E[1], E[1], 0], [0, 0, 0]]
        for a in range(3):
            for b in range(3):
                if (a, b) != (2, 2): c.ensure('stiffness %d,%d' % (a, b), lambda r, a=a, b=b: c.eq(r.new(o, a * 3 + b) * (det if a < 2 and b < 2 else one), C[a][b] if a < 2 and b < 2 else c.num(0)))
        c.ensure('shear', lambda r: c.eq(r.new(o, 8), i('Shear Modulus XY')))
    else:
        # inverse of the compliance: cofactors over the determinant
        cof = {}
        for a in range(3):
            p, q = [k for k in range(3) if k != a]; cof[a, a] = E[a] * (one - nu[p, q] * nu[q, p])
            for b in range(3):
                if b != a: g = 3 - a - b; cof[a, b] = E[a] * (nu[b, a] + nu[g, a] * nu[b, g])
        for a in range(6):
            for b in range(6):
                if a < 3 and b < 3: c.ensure('stiffness %d,%d' % (a, b), lambda r, a=a, b=b: c.eq(r.new(o, a * 6 + b) * det, cof[a, b]))
                elif a != b: c.ensure('stiffness %d,%d' % (a, b), lambda r, a=a, b=b: c.eq(r.new(o, a * 6 + b), c.num(0)))
                else: c.ensure('shear %d' % a, lambda r, a=a: c.eq(r.new(o, a * 7), i('Shear Modulus ' + {3: 'YZ', 4: 'XZ', 5: 'XY'}[a])))
    common(c, D, o, i); density(c, D, o, i)
KINDS = {'Isotropic Linear Elastic': isolist, 'Cubic Linear Elastic': cublist, 'Orthotropic Linear Elastic': ortlist}
for D in (1, 2, 3):
    for nm, f, h in (('isotropic', isolist, 'h_iso'), ('cubic', cublist, 'h_cub'), ('orthotropic', ortlist, 'h_ort'), ('custom', cuslist, 'h_cus')):
        @contract(P, '%s elastic material from input, %dD' % (nm, D), T)
        def _(c, D=D, f=f, h=h): f(c, D, lambda i, o: c.call(h + str(D), i.h, i.x, o))
    for kind, f in KINDS.items():
        @contract(P, 'elastic model factory, %s, %dD' % (kind, D), T)
        def _(c, D=D, f=f, kind=kind): (f if f is not ortlist else lambda c, D, g: ortlist(c, D, g, True))(c, D, lambda i, o: c.call('h_fac%d' % D, c.text(kind), i.h, i.x, o))
    @contract(P, 'isotropic elastic material from its constants, %dD' % D, T)
    def _(c, D=D):
        E = c.real('E', 0.5, 4); v = c.real('v', -0.4375, 0.4375); nupre(c, v); o = c.vec('o', osize(D)); c.call('h_isov%d' % D, E, v, o); c.modifies(o); W = V[D]
        stiff(c, o, iso(D, E, v, c.num(1)), W, (c.num(1) + v) * (c.num(1) - 2 * v))
        for k in range(W): c.ensure('no reference strain %d' % k, lambda r, k=k: c.eq(r.new(o, W * W + k), c.num(0)))
        for k, x in enumerate((1, 1, 0, 0)): c.ensure('default %d' % k, lambda r, k=k, x=x: c.eq(r.new(o, W * W + W + k), c.num(x)))
    for nm, h, need in (('isotropic', 'h_iso', ['Youngs Modulus', 'Poissons Ratio']), ('cubic', 'h_cub', ['C11', 'C12', 'C44'][:1 if D == 1 else 3]), ('orthotropic', 'h_ort', ORT[D])):
        @contract(P, '%s elastic material with a missing constant, %dD' % (nm, D), T)
        def _(c, D=D, h=h, need=need):
            i = In(c, EL[D], [], need, {**ORNG, 'Youngs Modulus': POS, 'Poissons Ratio': NU}); o = c.vec('o', osize(D)); c.requires(c.Or(*[c.Not(i.has(n)) for n in need])); c.call(h + str(D), i.h, i.x, o); c.modifies(o); c.throws_iff(True)
    for fam, h in (('elastic', 'h_fno'), ('electroelastic', 'h_emn'), ('thermoelastic', 'h_tmn')):
        @contract(P, '%s factory without models list, %dD' % (fam, D), T)
        def _(c, D=D, h=h): c.call(h + str(D), 0, ret='int'); c.throws_iff(False); c.ensure('no model', lambda r: c.eq(r.value, 1))
        @contract(P, '%s factory asked for an undefined model, %dD' % (fam, D), T)
        def _(c, D=D, h=h): c.call(h + str(D), 1, ret='int'); c.throws_iff(True)
        @contract(P, '%s factory with no known kind of model, %dD' % (fam, D), T)
        def _(c, D=D, h=h): c.call(h + str(D), 2, ret='int'); c.throws_iff(False); c.ensure('no model', lambda r: c.eq(r.value, 1))
    def electro(c, D, call):
        W = V[D]; need = {1: ['e33', 'p33'], 2: EM[3:], 3: EM[3:]}[D]; i = In(c, EM, ['Youngs Modulus', 'Poissons Ratio'] + need, ['Alpha'], {'Poissons Ratio': NU, 'Youngs Modulus': POS}); E, v = i('Youngs Modulus'), i('Poissons Ratio'); nupre(c, v)
        o = c.vec('o', W * W + D * W + D * D + 1); call(i, o); c.modifies(o); stiff(c, o, iso(D, E, v, c.num(1)), W, (c.num(1) + v) * (c.num(1) - 2 * v))
        e = {1: {(0, 0): 'e33'}, 2: {(0, 2): 'e15', (1, 0): 'e31', (1, 1): 'e33'}, 3: {(2, 0): 'e31', (2, 1): 'e31', (2, 2): 'e33', (1, 3): 'e15', (0, 4): 'e15'}}[D]
        p = {1: ['p33'], 2: ['p11', 'p33'], 3: ['p11', 'p11', 'p33']}[D]
        for a in range(D):
            for b in range(W): c.ensure('coupling %d,%d' % (a, b), lambda r, a=a, b=b: c.eq(r.new(o, W * W + a * W + b), i(e[a, b]) if (a, b) in e else c.num(0)))
            for b in range(D): c.ensure('permittivity %d,%d' % (a, b), lambda r, a=a, b=b: c.eq(r.new(o, W * W + D * W + a * D + b), i(p[a]) if a == b else c.num(0)))
        c.ensure('scaling', lambda r: c.eq(r.new(o, W * W + D * W + D * D), i.get('Alpha', c.num(1))))
    @contract(P, 'electroelastic material from input, %dD' % D, T)
    def _(c, D=D): electro(c, D, lambda i, o: c.call('h_emm%d' % D, i.h, i.x, o))
    @contract(P, 'electroelastic factory, %dD' % D, T)
    def _(c, D=D): electro(c, D, lambda i, o: c.call('h_emf%d' % D, i.h, i.x, o))
    def thermo(c, D, kind, call):
        W = V[D]; al = ['Thermal Expansion Coefficient'] * D if kind == 'i' else ['a11', 'a22', 'a33'][:D]; k = ['Thermal Conductivity Coefficient'] * D if kind == 'i' else ['k11', 'k22', 'k33'][:D]
        opt = ['Mass Density', 'Specific Heat', 'Temperature Scaling', 'Pressure Scaling']
        i = In(c, TL, ['Reference Temperature', 'Youngs Modulus', 'Poissons Ratio'] + al + k, opt, {'Poissons Ratio': NU, 'Youngs Modulus': POS}); E, v = i('Youngs Modulus'), i('Poissons Ratio'); nupre(c, v)
        o = c.vec('o', W * W + D + D * D + 5); call(i, o); c.modifies(o); stiff(c, o, iso(D, E, v, c.num(1)), W, (c.num(1) + v) * (c.num(1) - 2 * v)); b0 = W * W
        for d in range(D):
            c.ensure('expansion %d' % d, lambda r, d=d: c.eq(r.new(o, b0 + d), i(al[d])))
            for e in range(D): c.ensure('conductivity %d,%d' % (d, e), lambda r, d=d, e=e: c.eq(r.new(o, b0 + D + d * D + e), i(k[d]) if d == e else c.num(0)))
        b = b0 + D + D * D; c.ensure('reference temperature', lambda r: c.eq(r.new(o, b + 2), i('Reference Temperature')))
        for q, nm in ((0, opt[0]), (1, opt[1]), (3, opt[2]), (4, opt[3])): c.ensure(nm, lambda r, q=q, nm=nm: c.eq(r.new(o, b + q), i.get(nm, c.num(1))))
    for kind, nm in (('i', 'Isotropic'), ('c', 'Cubic')):
        @contract(P, '%s linear thermoelastic material from input, %dD' % (nm.lower(), D), T)
        def _(c, D=D, kind=kind): thermo(c, D, kind, lambda i, o: c.call('h_tm%s%d' % (kind, D), i.h, i.x, o))
        @contract(P, 'thermoelastic factory, %s, %dD' % (nm.lower(), D), T)
        def _(c, D=D, kind=kind, nm=nm): thermo(c, D, kind, lambda i, o: c.call('h_tmf%d' % D, c.text(nm + ' Linear Thermoelastic'), i.h, i.x, o))
# elastic constants that no stable material has are refused
for D in (2, 3):
    ax = 'XYZ'[:D]
    for nm in [n for n in ORT[D] if 'Modulus' in n]:
        @contract(P, 'orthotropic: negative %s is refused, %dD' % (nm, D), T)
        def _(c, D=D, nm=nm):
            i = In(c, EL[D], ORT[D], [], {**ORNG, nm: lambda g: -g.uniform(0.1, 3)}); c.requires(c.lt(i(nm), c.num(0)))
            for n in ORT[D]:
                if 'Youngs' in n and n != nm: c.requires(c.gt(i(n), c.num(0)))
            o = c.vec('o', osize(D)); c.call('h_ort%d' % D, i.h, i.x, o); c.modifies(o); c.throws_iff(True)
    for a in range(D):
        for b in range(a + 1, D):
            @contract(P, "orthotropic: Poisson's ratio %s too large is refused, %dD" % (ax[a] + ax[b], D), T)
            def _(c, D=D, ax=ax, a=a, b=b):
                nm = 'Poissons Ratio ' + ax[a] + ax[b]; i = In(c, EL[D], ORT[D], [], {**ORNG, nm: lambda g: g.choice([-1, 1]) * g.uniform(3, 9)}); v = i(nm)
                for n in ORT[D]:
                    if 'Modulus' in n: c.requires(c.gt(i(n), c.num(0)))
                c.requires(c.gt(v * v * i('Youngs Modulus ' + ax[b]), i('Youngs Modulus ' + ax[a]))); o = c.vec('o', osize(D)); c.call('h_ort%d' % D, i.h, i.x, o); c.modifies(o); c.throws_iff(True)
@contract(P, 'orthotropic: negative compliance determinant is refused, 3D', T)
def _(c):
    D = 3; i = In(c, EL[D], ORT[D], [], {**{n: (lambda g: 1.0) for n in ORT[3]}, **{n: (lambda g: g.choice([-0.9, -0.8, 0.8, 0.9])) for n in ORT[3] if 'Ratio' in n}}); E = [i('Youngs Modulus ' + a) for a in 'XYZ']; one = c.num(1)
    xy, xz, yz = [i('Poissons Ratio ' + a) for a in ('XY', 'XZ', 'YZ')]
    for n in ORT[D]:
        if 'Modulus' in n: c.requires(c.gt(i(n), c.num(0)))
    c.requires(c.lt(E[0] * E[1] - xy * xy * E[1] * E[1] - yz * yz * E[2] * E[0] - xz * xz * E[2] * E[1] - 2 * xy * yz * xz * E[2] * E[1], c.num(0))); o = c.vec('o', osize(D)); c.call('h_ort3', i.h, i.x, o); c.modifies(o); c.throws_iff(True)

# element laws
def S(c, it): return sum(it, c.num(0))
for D in (1, 2, 3):
    W = V[D]
    def cells(c): return c.size('n', 1, (1, 2, 4))
    def setup(c, W, k=0): n = cells(c); s = c.vec('s', W * W + k); return n, s, c.view('t', [n, W]), c.view('e', [n, W])
    @contract(P, 'linear stress from a stiffness, %dD' % D, T)
    def _(c, D=D, W=W):
        n, s, t, e = setup(c, W); c.call('h_ls%d' % D, s, t, e); c.modifies(t)
        for a in range(W): c.ensure_all('stress %d' % a, [n], lambda r, i, a=a: c.eq(r.new(t, i, a), S(c, (s(a * W + b) * e(i, b) for b in range(W)))))
    @contract(P, 'linear stress of a material, %dD' % D, T)
    def _(c, D=D, W=W):
        n, s, t, e = setup(c, W, W + 4); c.call('h_lm%d' % D, s, t, e); c.modifies(t)
        for a in range(W): c.ensure_all('stress %d' % a, [n], lambda r, i, a=a: c.eq(r.new(t, i, a), S(c, (s(a * W + b) * (e(i, b) - s(W * W + b)) for b in range(W)))))
    @contract(P, 'linear stress with stiffness damping, %dD' % D, T)
    def _(c, D=D, W=W):
        n, s, t, e = setup(c, W, W + 4); v = c.view('v', [n, W]); c.call('h_lv%d' % D, s, t, e, v); c.modifies(t)
        for a in range(W): c.ensure_all('stress %d' % a, [n], lambda r, i, a=a: c.eq(r.new(t, i, a), S(c, (s(a * W + b) * (e(i, b) - s(W * W + b) + s(W * W + W + 3) * v(i, b)) for b in range(W)))))
    for k in range(W):
        @contract(P, 'cell problem forcing of load case %d, %dD' % (k, D), T)
        def _(c, D=D, W=W, k=k):
            n = cells(c); s = c.vec('s', W * W); t = c.view('t', [n, W]); c.call('h_cf%d' % D, s, k, t); c.modifies(t)
            for a in range(W): c.ensure_all('term %d' % a, [n], lambda r, i, a=a: c.eq(r.new(t, i, a), t(i, a) - s(a * W + k)))
        @contract(P, 'homogenized stress of load case %d, %dD' % (k, D), T)
        def _(c, D=D, W=W, k=k):
            n, s, t, e = setup(c, W); c.call('h_hs%d' % D, s, k, t, e); c.modifies(t)
            for a in range(W): c.ensure_all('stress %d' % a, [n], lambda r, i, a=a: c.eq(r.new(t, i, a), s(k * W + a) - S(c, (s(b * W + a) * e(i, b) for b in range(W)))))
    @contract(P, 'complex linear stress, %dD' % D, T)
    def _(c, D=D, W=W):
        n = cells(c); s = c.vec('s', W * W); e = c.view('e', [n, 2, W]); t = c.view('t', [n, 2, W]); c.call('h_cs%d' % D, s, e, t); c.modifies(t)
        for z in range(2):
            for a in range(W): c.ensure_all('stress %d,%d' % (z, a), [n], lambda r, i, z=z, a=a: c.eq(r.new(t, i, z, a), S(c, (s(a * W + b) * e(i, z, b) for b in range(W)))))
    @contract(P, 'inertial content, %dD' % D, T)
    def _(c, D=D, W=W):
        n = cells(c); s = c.vec('s', osize(D)); t = c.view('t', [n, D]); a = c.view('a', [n, D]); c.call('h_in%d' % D, s, t, a); c.modifies(t)
        for d in range(D): c.ensure_all('component %d' % d, [n], lambda r, i, d=d: c.eq(r.new(t, i, d), s(W * W + W) * a(i, d)))
    @contract(P, 'inertial content with mass damping, %dD' % D, T)
    def _(c, D=D, W=W):
        n = cells(c); s = c.vec('s', osize(D)); t = c.view('t', [n, D]); a = c.view('a', [n, D]); v = c.view('v', [n, D]); c.call('h_iv%d' % D, s, t, v, a); c.modifies(t)
        for d in range(D): c.ensure_all('component %d' % d, [n], lambda r, i, d=d: c.eq(r.new(t, i, d), s(W * W + W) * (a(i, d) + s(W * W + W + 2) * v(i, d))))
    @contract(P, 'electromechanical kinetics, %dD' % D, T)
    def _(c, D=D, W=W):
        n = cells(c); s = c.vec('s', W * W + D * W + D * D + 1); t = c.view('t', [n, W]); d = c.view('d', [n, D]); e = c.view('e', [n, W]); g = c.view('g', [n, D]); c.call('h_ek%d' % D, s, t, d, e, g); c.modifies(t, d)
        C = lambda a, b: s(a * W + b); Z = lambda a, b: s(W * W + a * W + b); K = lambda a, b: s(W * W + D * W + a * D + b); al = s(W * W + D * W + D * D)
        for a in range(W): c.ensure_all('stress %d' % a, [n], lambda r, i, a=a: c.eq(r.new(t, i, a), S(c, (C(a, b) * e(i, b) for b in range(W))) - al * S(c, (Z(b, a) * g(i, b) for b in range(D)))))
        for a in range(D): c.ensure_all('electric displacement %d' % a, [n], lambda r, i, a=a: c.eq(r.new(d, i, a), al * S(c, (Z(a, b) * e(i, b) for b in range(W))) + al * al * S(c, (K(a, b) * g(i, b) for b in range(D)))))
    @contract(P, 'gradient of a nodal scalar, %dD' % D, T)
    def _(c, D=D):
        n = cells(c); o = c.view('o', [n, D]); x = c.view('x', [n, D + 1]); g = c.view('g', [n, D + 1, D]); c.call('h_sg%d' % D, o, x, g); c.modifies(o)
        for d in range(D): c.ensure_all('component %d' % d, [n], lambda r, i, d=d: c.eq(r.new(o, i, d), S(c, (x(i, k) * g(i, k, d) for k in range(D + 1)))))
    for dpn, off in ((1, 0), (D + 1, D), (D + 2, 1)):
        @contract(P, 'gradient of one of %d unknowns per node at offset %d, %dD' % (dpn, off, D), T)
        def _(c, D=D, dpn=dpn, off=off):
            n = cells(c); o = c.view('o', [n, D]); x = c.view('x', [n, dpn * (D + 1)]); g = c.view('g', [n, D + 1, D]); c.call('h_sn%d' % D, dpn, off, x, g, o); c.modifies(o)
            for d in range(D): c.ensure_all('component %d' % d, [n], lambda r, i, d=d: c.eq(r.new(o, i, d), S(c, (x(i, k * dpn + off) * g(i, k, d) for k in range(D + 1)))))
    @contract(P, 'gradient of a nodal scalar from vectors, %dD' % D, T)
    def _(c, D=D):
        n = cells(c); o = c.view('o', [n, D]); x = c.view('x', [n, D + 1]); g = c.vec('g', (D + 1) * D); c.call('h_sv%d' % D, o, x, g); c.modifies(o)
        for d in range(D): c.ensure_all('component %d' % d, [n], lambda r, i, d=d: c.eq(r.new(o, i, d), S(c, (x(i, k) * g(k * D + d) for k in range(D + 1)))))
    @contract(P, 'scaled product of Voigt tensors, %dD' % D, T)
    def _(c, D=D, W=W):
        n = cells(c); o = c.vec('o', n); a = c.view('a', [n, W]); b = c.view('b', [n, W]); w = c.vec('w', n); s = c.real('s'); c.call('h_sp%d' % D, o, a, b, w, s); c.modifies(o)
        c.ensure_all('added', [n], lambda r, i: c.eq(r.new(o, i), o(i) + s * w(i) * S(c, (a(i, k) * b(i, k) for k in range(W)))))
    @contract(P, 'product of Voigt tensors, %dD' % D, T)
    def _(c, D=D, W=W):
        n = cells(c); o = c.vec('o', n); a = c.view('a', [n, W]); b = c.view('b', [n, W]); w = c.vec('w', n); c.call('h_s1%d' % D, o, a, b, w); c.modifies(o)
        c.ensure_all('added', [n], lambda r, i: c.eq(r.new(o, i), o(i) + w(i) * S(c, (a(i, k) * b(i, k) for k in range(W)))))
    @contract(P, 'scaled product with a constant tensor, %dD' % D, T)
    def _(c, D=D, W=W):
        n = cells(c); o = c.vec('o', n); a = c.view('a', [n, W]); b = c.vec('b', W); w = c.vec('w', n); s = c.real('s'); c.call('h_sc%d' % D, o, a, b, w, s); c.modifies(o)
        c.ensure_all('added', [n], lambda r, i: c.eq(r.new(o, i), o(i) + s * w(i) * S(c, (a(i, k) * b(k) for k in range(W)))))
    TC = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (0, 1), (2, 2), (0, 2), (1, 2)]}[D]
    RC = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1), (2, 2)], 3: [(0, 0), (1, 1), (0, 1), (2, 2), (0, 2), (1, 2), (3, 3), (4, 4), (5, 5)]}[D]
    def tm(c, D, W, t, q, e, g, T_, C, al, kc, tr, sc, n):
        for a in range(W): c.ensure_all('stress %d' % a, [n], lambda r, i, a=a: c.eq(r.new(t, i, a), S(c, (C(i, a, b) * (e(i, b) - (sc * al(i, b) * (T_(i) - tr) if b < D else c.num(0))) for b in range(W)))))
        for a in range(D): c.ensure_all('flux %d' % a, [n], lambda r, i, a=a: c.eq(r.new(q, i, a), sc * sc * S(c, (kc(i, a, b) * g(i, b) for b in range(D)))))
    @contract(P, 'thermomechanical kinetics, anisotropic constants, %dD' % D, T)
    def _(c, D=D, W=W, TC=TC, RC=RC):
        n = cells(c); cs = c.vec('cs', len(RC)); al = c.vec('al', len(TC)); kc = c.vec('kc', len(TC)); hr = c.bool('hr'); tr = c.real('tr'); hs = c.bool('hs'); sc = c.real('sc')
        t = c.view('t', [n, W]); q = c.view('q', [n, D]); e = c.view('e', [n, W]); g = c.view('g', [n, D]); T_ = c.vec('T', n); c.call('h_tk%d' % D, cs, al, kc, hr, tr, hs, sc, t, q, e, g, T_); c.modifies(t, q)
        ix = lambda L, a, b: L.index((min(a, b), max(a, b))) if (min(a, b), max(a, b)) in L else None
        C = lambda i, a, b: cs(ix(RC, a, b)) if ix(RC, a, b) is not None else c.num(0)
        tm(c, D, W, t, q, e, g, T_, C, lambda i, b: al(ix(TC, b, b)), lambda i, a, b: kc(ix(TC, a, b)), c.If(hr, tr, c.num(23)), c.If(hs, sc, c.num(1)), n)
    @contract(P, 'thermomechanical kinetics, isotropic stiffness, %dD' % D, T)
    def _(c, D=D, W=W, TC=TC):
        n = cells(c); E = c.real('E', 0.5, 4); v = c.real('v', -0.4375, 0.4375); nupre(c, v); al = c.vec('al', len(TC)); kc = c.vec('kc', len(TC)); tr = c.real('tr'); sc = c.real('sc')
        t = c.view('t', [n, W]); q = c.view('q', [n, D]); e = c.view('e', [n, W]); g = c.view('g', [n, D]); T_ = c.vec('T', n); c.call('h_ti%d' % D, E, v, al, kc, tr, sc, t, q, e, g, T_); c.modifies(t, q)
        co = E / ((c.num(1) + v) * (c.num(1) - 2 * v)); M = iso(D, co, v, c.num(1)); ix = lambda a, b: TC.index((min(a, b), max(a, b)))
        tm(c, D, W, t, q, e, g, T_, lambda i, a, b: M[a][b] if not isinstance(M[a][b], int) else c.num(0), lambda i, b: al(ix(b, b)), lambda i, a, b: kc(ix(a, b)), tr, sc, n)
    @contract(P, 'thermomechanical kinetics, temperature dependent, %dD' % D, T)
    def _(c, D=D, W=W):
        n = cells(c); E = c.vec('E', 3); v = c.real('v', -0.4375, 0.4375); nupre(c, v); al = c.vec('al', 3); kc = c.vec('kc', 3); tr = c.real('tr'); sc = c.real('sc')
        t = c.view('t', [n, W]); q = c.view('q', [n, D]); e = c.view('e', [n, W]); g = c.view('g', [n, D]); T_ = c.vec('T', n); c.call('h_tn%d' % D, E, v, al, kc, tr, sc, t, q, e, g, T_); c.modifies(t, q)
        pl = lambda x, i: x(0) + x(1) * T_(i) + x(2) * T_(i) * T_(i); M = iso(D, c.num(1) / ((c.num(1) + v) * (c.num(1) - 2 * v)), v, c.num(1))
        tm(c, D, W, t, q, e, g, T_, lambda i, a, b: pl(E, i) * M[a][b] if not isinstance(M[a][b], int) else c.num(0), lambda i, b: pl(al, i), lambda i, a, b: pl(kc, i) if a == b else c.num(0), tr, sc, n)
for D in (2, 3):
    W = V[D]
    def stab(c, D, W, n, s, w, pp, p, pg, ds, vf, st, ps, str_, vol):
        C = lambda a, b: s(a * W + b); K = S(c, (C(0, b) for b in range(D))) / c.num(D); G = S(c, (C(b, b) for b in range(D, W))) / c.num(W - D); c.requires(c.And(c.gt(K, c.num(0)), c.gt(G, c.num(0))))
        sig = lambda i, a: S(c, (C(a, b) * str_(i, b) for b in range(W))); tr = lambda i: S(c, (sig(i, a) for a in range(D)))
        for a in range(W): c.ensure_all('deviatoric stress %d' % a, [n], lambda r, i, a=a: c.eq(r.new(ds, i, a), sig(i, a) - (tr(i) / 3 if a < D else c.num(0))))
        c.ensure_all('scaled pressure', [n], lambda r, i: c.eq(r.new(p, i), ps * p(i)))
        c.ensure_all('volume flux', [n], lambda r, i: c.eq(r.new(vf, i) * K, ps * (vol(i) * K - ps * p(i))))
        for a in range(D): c.ensure_all('stabilization %d' % a, [n], lambda r, i, a=a: c.eq(r.new(st, i, a) * 2 * G, ps * c.pow(w(i), TT) * (ps * pg(i, a) - pp(i, a))))
    @contract(P, 'stabilized kinetics, %dD' % D, T)
    def _(c, D=D, W=W):
        n = cells(c); s = c.view('s', [osize(D)], lo=0.5, hi=2.0); w = c.view('w', [n], lo=0.25, hi=2.0); pp = c.view('pp', [n, D]); p = c.vec('p', n); e = c.view('e', [n, W]); pg = c.view('pg', [n, D]); ds = c.view('ds', [n, W]); vf = c.vec('vf', n); st = c.view('st', [n, D])
        c.call('h_sk%d' % D, s, w, pp, p, e, pg, ds, vf, st); c.modifies(p, ds, vf, st); c.requires_all([n], lambda i: c.gt(w(i), c.num(0)))
        stab(c, D, W, n, s, w, pp, p, pg, ds, vf, st, s(W * W + W + 1), lambda i, b: e(i, b), lambda i: S(c, (e(i, b) for b in range(D))))
    @contract(P, 'stabilized thermomechanical kinetics, %dD' % D, T)
    def _(c, D=D, W=W):
        B = W * W + D + D * D; n = cells(c); s = c.view('s', [B + 5], lo=0.5, hi=2.0); w = c.view('w', [n], lo=0.25, hi=2.0); pp = c.view('pp', [n, D]); p = c.vec('p', n); T_ = c.vec('T', n); e = c.view('e', [n, W]); pg = c.view('pg', [n, D]); tg = c.view('tg', [n, D])
        ds = c.view('ds', [n, W]); vf = c.vec('vf', n); tf = c.view('tf', [n, D]); st = c.view('st', [n, D])
        c.call('h_st%d' % D, s, w, pp, p, T_, e, pg, tg, ds, vf, tf, st); c.modifies(p, ds, vf, tf, st); c.requires_all([n], lambda i: c.gt(w(i), c.num(0)))
        ts = s(B + 3); th = lambda i, b: ts * s(W * W + b) * (T_(i) - s(B + 2)) if b < D else c.num(0)
        stab(c, D, W, n, s, w, pp, p, pg, ds, vf, st, s(B + 4), lambda i, b: e(i, b) - th(i, b), lambda i: S(c, (e(i, b) - th(i, b) for b in range(D))))
        for a in range(D): c.ensure_all('heat flux %d' % a, [n], lambda r, i, a=a: c.eq(r.new(tf, i, a), ts * ts * S(c, (s(W * W + D + a * D + b) * tg(i, b) for b in range(D)))))
