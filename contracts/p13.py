from contract import contract
P, T = 'P13', 'p13.cpp'
def S(c, it): return sum(it, c.num(0))
V = {1: 1, 2: 3, 3: 6}
def entry(a, b): return ''.join(map(str, sorted((a + 1, b + 1))))
# coefficients the input may give, in the order of the harness tables
TC = {1: ['11'], 2: ['11', '22', '12'], 3: ['11', '22', '12', '33', '13', '23']}
RC = {1: ['11'], 2: ['11', '22', '12', '33'], 3: ['11', '22', '12', '33', '13', '23', '44', '55', '66']}
def tdef(D):    # documented default of an entry that the input leaves out: None = required, 0 or another entry
    return {k: (None if k == '11' else '11' if k[0] == k[1] else 0) for k in TC[D]}
def rdef(D):
    d = {k: 0 for k in RC[D]}
    d['11'] = None
    if D > 1: d['22'] = '11'
    if D == 2: d['33'] = None
    if D == 3: d.update({'33': '11', '13': '12', '23': '12', '44': None, '55': '44', '66': '44'})
    return d
def inputs(c, n, tag='', gen=None):
    h = c.iview('h' + tag, [n], 0, 2, **({'gen': gen} if gen else {})); x = c.view('x' + tag, [n]); return h, x
def table(c, names, deflt, order, h, x):
    """value of every coefficient after defaulting; order 0 constants 'cij', 3 functors interleaved c0ij, c1ij, c2ij"""
    val = {}
    K = 3 if order else 1
    for q in range(K):
        for k, nm in enumerate(names):
            d = deflt[nm]
            dv = c.num(0) if d in (0, None) else val[q, d]
            val[q, nm] = c.If(c.ne(h(K * k + q), 0), x(K * k + q), dv)
    return val
def required(c, names, deflt, order, h):
    K = 3 if order else 1
    return c.Or(*[c.eq(h(K * k), 0) for k, nm in enumerate(names) if deflt[nm] is None])
def poly(c, val, nm, t): return val[0, nm] + val[1, nm] * t + val[2, nm] * t * t
for D in (1, 2, 3):
    def mk(D):
        for kind, names, de, W in (('t', TC[D], tdef(D), D), ('r', RC[D], rdef(D), V[D])):
            def mm(kind, names, de, W):
                nm = {'t': 'tensor', 'r': 'rank-4 stiffness'}[kind]
                @contract(P, 'temperature dependent %s from input, dimension %d' % (nm, D), T)
                def _(c):
                    h, x = inputs(c, 3 * len(names)); t = c.real('t'); o = c.vec('o', W * W); c.call('h_%sf%d' % (kind, D), h, x, t, o); c.modifies(o)
                    c.throws_iff(required(c, names, de, 3, h)); val = table(c, names, de, 3, h, x)
                    for a in range(W):
                        for b in range(W):
                            e = entry(a, b)
                            c.ensure('entry %d,%d' % (a, b), lambda r, a=a, b=b, e=e: c.eq(r.new(o, a * W + b), poly(c, val, e, t) if e in names else c.num(0)))
                @contract(P, 'constant %s from input, dimension %d' % (nm, D), T)
                def _(c):
                    h, x = inputs(c, len(names)); o = c.vec('o', W * W); c.call('h_%sc%d' % (kind, D), h, x, o); c.modifies(o)
                    c.throws_iff(required(c, names, de, 0, h)); val = table(c, names, de, 0, h, x)
                    for a in range(W):
                        for b in range(W):
                            e = entry(a, b)
                            c.ensure('entry %d,%d' % (a, b), lambda r, a=a, b=b, e=e: c.eq(r.new(o, a * W + b), val[0, e] if e in names else c.num(0)))
            mm(kind, names, de, W)
        @contract(P, 'isotropic tensor from one number, dimension %d' % D, T)
        def _(c):
            v = c.real('v'); o = c.vec('o', D * D); c.call('h_tcs%d' % D, v, o); c.modifies(o)
            for k in range(D * D): c.ensure('entry %d' % k, lambda r, k=k: c.eq(r.new(o, k), v if k // D == k % D else c.num(0)))
        @contract(P, 'isotropic temperature independent tensor, dimension %d' % D, T)
        def _(c):
            v = c.real('v'); t = c.real('t'); o = c.vec('o', D * D); c.call('h_tfs%d' % D, v, t, o); c.modifies(o)
            for k in range(D * D): c.ensure('entry %d' % k, lambda r, k=k: c.eq(r.new(o, k), v if k // D == k % D else c.num(0)))
        def iso(c, E, v, a, b, W):
            f = E / ((1 + v) * (1 - 2 * v))
            if a >= D or b >= D: return f * (1 - 2 * v) / 2 if a == b else c.num(0)
            return f * (1 - v) if a == b else f * v
        def okv(c, v): c.requires(c.gt(v, -1)); c.requires(c.lt(v, c.q(1, 2)))
        W = V[D]
        @contract(P, 'isotropic stiffness constant, dimension %d' % D, T)
        def _(c):
            h, x = inputs(c, 2); okv(c, x(1)); o = c.vec('o', W * W); c.call('h_ic%d' % D, h, x, o); c.modifies(o); c.throws_iff(c.Or(c.eq(h(0), 0), c.eq(h(1), 0)))
            for a in range(W):
                for b in range(W): c.ensure('entry %d,%d' % (a, b), lambda r, a=a, b=b: c.eq(r.new(o, a * W + b), iso(c, x(0), x(1), a, b, W)))
        @contract(P, 'isotropic temperature dependent stiffness, dimension %d' % D, T)
        def _(c):
            h, x = inputs(c, 3); hv = c.bool('hv'); v = c.real('v', -0.5, 0.4375); okv(c, v); t = c.real('t'); o = c.vec('o', W * W); c.call('h_if%d' % D, hv, v, h, x, t, o); c.modifies(o)
            miss = c.Not(hv) if D == 1 else c.Or(c.Not(hv), c.eq(h(0), 0))
            c.throws_iff(miss)
            e = [c.If(c.ne(h(k), 0), x(k), c.num(0)) for k in range(3)]
            for a in range(W):
                for b in range(W): c.ensure('entry %d,%d' % (a, b), lambda r, a=a, b=b: c.eq(r.new(o, a * W + b), iso(c, e[0] + e[1] * t + e[2] * t * t, v, a, b, W)))
        @contract(P, 'material linearity flag, dimension %d' % D, T)
        def _(c):
            h = c.bool('h'); b = c.bool('b'); c.call('h_ty%d' % D, h, b, ret='int'); c.ensure('nonlinear iff declared so', lambda r: c.eq(r.value, c.If(c.And(h, b), 1, 0)))
        @contract(P, 'heat flux of a constant conductivity, dimension %d' % D, T)
        def _(c):
            n = c.size('n', 0, (0, 1, 2)); v = c.real('v'); q = c.view('q', [n, D]); g = c.view('g', [n, D]); c.call('h_fc%d' % D, v, q, g); c.modifies(q)
            for d in range(D): c.ensure_all('component %d' % d, [n], lambda r, i, d=d: c.eq(r.new(q, i, d), -(v * g(i, d))))
        for dep in (0, 1):
            for hs in (0, 1):
                def mf(dep, hs):
                    @contract(P, 'heat flux of a %s conductivity given as a %s, dimension %d' % (('constant', 'temperature dependent')[dep], ('table', 'number')[hs], D), T)
                    def _(c):
                        n = c.size('n', 0, (0, 1, 2)); v = c.real('v'); ht = c.bool('ht'); k = len(TC[D])
                        h, x = inputs(c, k); hf, xf = inputs(c, 3 * k, 'f', (lambda g, d: [g.randrange(2)] + [1] * (3 * k - 1)) if dep and not hs else None); q = c.view('q', [n, D]); g = c.view('g', [n, D]); t = c.vec('t', n)
                        c.call('h_fl%d' % D, dep, hs, v, ht, h, x, hf, xf, q, g, t); c.modifies(q)
                        de = tdef(D); cv = table(c, TC[D], de, 0, h, x); fv = table(c, TC[D], de, 3, hf, xf)
                        if dep and not hs:    # which coefficients default to what is the contract on the tensor itself
                            for k_ in range(1, 3 * k): c.requires(c.eq(hf(k_), 1))
                        if not hs: c.throws_iff(c.Or(c.Not(ht), c.eq((hf if dep else h)(0), 0)))
                        def K(i, a, b):
                            e = entry(a, b)
                            if hs: return v if a == b else c.num(0)
                            return poly(c, fv, e, t(i)) if dep else cv[0, e]
                        for d in range(D): c.ensure_all('component %d is -K grad T' % d, [n], lambda r, i, d=d: c.eq(r.new(q, i, d), -S(c, (K(i, d, b) * g(i, b) for b in range(D)))))
                mf(dep, hs)
    mk(D)
@contract(P, 'scalar temperature law from input', T)
def _(c):
    h, x = inputs(c, 3); t = c.real('t'); c.call('h_sf', h, x, t, ret='real'); c.throws_iff(c.eq(h(0), 0))
    e = [c.If(c.ne(h(k), 0), x(k), c.num(0)) for k in range(3)]
    c.ensure('c0 + c1 T + c2 T^2', lambda r: c.eq(r.value, e[0] + e[1] * t + e[2] * t * t))
@contract(P, 'scalar temperature law from one number', T)
def _(c):
    v = c.real('v'); t = c.real('t'); c.call('h_sfc', v, t, ret='real'); c.ensure('constant', lambda r: c.eq(r.value, v))
@contract(P, 'default scalar temperature law', T)
def _(c):
    t = c.real('t'); c.call('h_sfd', t, ret='real'); c.ensure('zero', lambda r: c.eq(r.value, 0))
def ent(c, s):
    n = c.bool('n' + s); v = c.real('v' + s); t = c.bool('t' + s); h, x = inputs(c, 3, s)
    e = [c.If(c.ne(h(k), 0), x(k), c.num(0)) for k in range(3)]
    return (n, v, t, h, x), lambda T: c.If(n, v, e[0] + e[1] * T + e[2] * T * T), lambda dep: c.And(c.Not(n), c.Or(c.Not(t), c.Not(dep), c.eq(h(0), 0)))
@contract(P, 'thermal content from input', T)
def _(c):
    n = c.size('n', 0, (0, 1, 2)); dep = c.bool('dep'); a1, d1, b1 = ent(c, '1'); a2, d2, b2 = ent(c, '2'); o = c.vec('o', n); q = c.vec('q', n); t = c.vec('t', n)
    c.call('h_tm', dep, *a1, *a2, o, q, t); c.modifies(o); c.throws_iff(c.Or(b1(dep), b2(dep)))
    c.ensure_all('rate * density(T) * specific heat(T)', [n], lambda r, i: c.eq(r.new(o, i), q(i) * d1(t(i)) * d2(t(i))))
@contract(P, 'thermal content of a constant material', T)
def _(c):
    n = c.size('n', 0, (0, 1, 2)); v = c.real('v'); w = c.real('w'); o = c.vec('o', n); q = c.vec('q', n); c.call('h_tmc', v, w, o, q); c.modifies(o)
    c.ensure_all('rate * density * specific heat', [n], lambda r, i: c.eq(r.new(o, i), q(i) * v * w))
def md(c): return c.bool('s'), c.bool('he'), c.real('e'), c.bool('hv'), c.real('v', -0.5, 0.4375)
@contract(P, 'bulk modulus from input', T)
def _(c):
    s, he, e, hv, v = md(c); c.requires(c.lt(v, c.q(1, 2))); c.requires(c.gt(v, -1)); c.call('h_bulk', s, he, e, hv, v, ret='real'); c.throws_iff(c.Not(c.And(s, he, hv))); c.ensure('E/(3(1-2v))', lambda r: c.eq(r.value, e / (3 * (1 - 2 * v))))
@contract(P, 'shear modulus from input', T)
def _(c):
    s, he, e, hv, v = md(c); c.requires(c.gt(v, -1)); c.requires(c.lt(v, c.q(1, 2))); c.call('h_shear', s, he, e, hv, v, ret='real'); c.throws_iff(c.Not(c.And(s, he, hv))); c.ensure('E/(2(1+v))', lambda r: c.eq(r.value, e / (2 * (1 + v))))
for nm, fn, hasd, sub in (('material constant with a default', 'h_psc', True, False), ('required material constant', 'h_psr', False, False), ('parameter with a default', 'h_gp', True, False),
                     ('required parameter', 'h_gr', False, False), ('sublist parameter with a default', 'h_gsp', True, True)):
    def mk(nm, fn, hasd, sub):
        @contract(P, nm, T)
        def _(c):
            a = [c.bool('s')] if sub else []
            h = c.bool('h'); v = c.real('v'); d = c.real('d') if hasd else None
            c.call(fn, *a, h, v, *([d] if hasd else []), ret='real')
            g = c.And(*a, h)
            if not hasd: c.throws_iff(c.Not(g)); c.ensure('the given value', lambda r: c.eq(r.value, v))
            else: c.ensure('the given value or the default', lambda r: c.eq(r.value, c.If(g, v, d)))
    mk(nm, fn, hasd, sub)
@contract(P, 'integer sublist parameter with a default', T)
def _(c):
    s = c.bool('s'); h = c.bool('h'); v = c.int('v', -5, 5); d = c.int('d', -5, 5); c.call('h_gsi', s, h, v, d, ret='int'); c.ensure('the given value or the default', lambda r: c.eq(r.value, c.If(c.And(s, h), v, d)))
VM = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]}
for D in (1, 2, 3):
    for t in (0, 1):
        def mk(D, t):
            @contract(P, 'Voigt map, dimension %d, %s index' % (D, ('row', 'column')[t]), T)
            def _(c):
                k = c.int('k', 0, len(VM[D]) - 1); c.call('h_v%s%d' % ('ij'[t], D), k, ret='int')
                c.ensure('tensor index of the Voigt term', lambda r: c.And(*[c.implies(c.eq(k, q), c.eq(r.value, VM[D][q][t])) for q in range(len(VM[D]))]))
        mk(D, t)

def teclauses(c, D, W, o, E, v, al, K):
    f = E / ((1 + v) * (1 - 2 * v)); z = c.num(0)
    def iso(a, b):
        if a >= D or b >= D: return f * (1 - 2 * v) / 2 if a == b else z
        return f * (1 - v) if a == b else f * v
    for a in range(W):
        for b in range(W): c.ensure('stiffness %d,%d' % (a, b), lambda r, a=a, b=b: c.eq(r.new(o, a * W + b), iso(a, b)))
    for a in range(D):
        for b in range(D):
            c.ensure('expansivity %d,%d' % (a, b), lambda r, a=a, b=b: c.eq(r.new(o, W * W + a * D + b), al if a == b else z)); c.ensure('conductivity %d,%d' % (a, b), lambda r, a=a, b=b: c.eq(r.new(o, W * W + D * D + a * D + b), K if a == b else z))
for D in (1, 2, 3):
    @contract(P, 'thermoelastic material from input, dimension %d' % D, T)
    def _(c, D=D):
        W = V[D]; E = c.real('E'); v = c.real('v', -0.5, 0.4375); al = c.real('al'); K = c.real('K'); ht = c.bool('ht'); t0 = c.real('t0'); hs = c.bool('hs'); sc = c.real('sc'); o = c.vec('o', W * W + 2 * D * D + 2)
        c.call('h_te%d' % D, True, True, True, E, v, al, K, ht, t0, hs, sc, o, ret='int'); c.modifies(o); c.throws_iff(False); c.ensure('found', lambda r: c.eq(r.value, 1)); teclauses(c, D, W, o, E, v, al, K)
        c.ensure('reference temperature, 23 by default', lambda r: c.eq(r.new(o, W * W + 2 * D * D), c.If(ht, t0, c.num(23)))); c.ensure('temperature scaling, 1 by default', lambda r: c.eq(r.new(o, W * W + 2 * D * D + 1), c.If(hs, sc, c.num(1))))
    @contract(P, 'temperature dependent thermoelastic material, dimension %d' % D, T)
    def _(c, D=D):
        W = V[D]; e = [c.real('e%d' % k) for k in range(3)]; v = c.real('v', -0.5, 0.4375); al = c.real('al'); K = c.real('K'); t = c.real('t'); o = c.vec('o', W * W + 2 * D * D)
        c.call('h_tf_te%d' % D, *e, v, al, K, t, o); c.modifies(o); teclauses(c, D, W, o, e[0] + e[1] * t + e[2] * t * t, v, al, K)
    for K, h in ((1, 'h_tg'), (3, 'h_th')):
        @contract(P, '%sthermoelastic material with stiffness coefficients, dimension %d' % ('temperature dependent ' if K == 3 else '', D), T)
        def _(c, D=D, K=K, hn=h):
            W = V[D]; names, de = RC[D], rdef(D); h, x = inputs(c, K * len(names)); al = c.real('al'); t = c.real('t') if K == 3 else c.num(0); o = c.vec('o', W * W); c.call(hn + str(D), h, x, al, *([t] if K == 3 else []), o); c.modifies(o)
            c.throws_iff(required(c, names, de, K - 1, h)); val = table(c, names, de, K - 1, h, x)
            for a in range(W):
                for b in range(W): c.ensure('stiffness %d,%d' % (a, b), lambda r, a=a, b=b: c.eq(r.new(o, a * W + b), (poly(c, val, entry(a, b), t) if K == 3 else val[0, entry(a, b)]) if entry(a, b) in names else c.num(0)))
    for models, named, te in ((0, 1, 1), (1, 0, 1), (1, 1, 0)):
        @contract(P, 'unusable thermoelastic material input %d%d%d, dimension %d' % (models, named, te, D), T)
        def _(c, D=D, models=models, named=named, te=te):
            W = V[D]; E = c.real('E'); v = c.real('v', -0.5, 0.4375); o = c.vec('o', W * W + 2 * D * D + 2); c.call('h_te%d' % D, models, named, te, E, v, E, E, False, E, False, E, o, ret='int'); c.modifies(o); c.throws_iff(bool(models))
            if not models: c.ensure('no material', lambda r: c.eq(r.value, 0))
