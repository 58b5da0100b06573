import math
from contract import contract
P, T = 'P08', 'p08.cpp'
def S(c, it): return sum(it, c.num(0))
def simp(c, x, p, m): return m + (1 - m) * c.pow(x, p)
def ramp(c, x, p, m): return m + (1 - m) * x / (1 + p * (1 - x))
def heav(c, x, p, L, m):
    return c.If(c.le(x, -L), m, c.If(c.ge(x, L), c.num(1), m + (1 - m) * c.pow((1 + c.fn('sin', c.num(math.pi) * x / (2 * L))) / 2, p)))
def step(c, up, p, a, u): return c.If(up, c.min2(p + a, u), p)
def params(c, d):
    """one flag and one value per parameter; returns (call arguments, effective values)"""
    args = []; val = {}
    for n, df in d:
        h = c.bool('h' + n); v = c.real(n, *LIM.get(n, (None, None))); args += [h, v]; val[n] = c.If(h, v, c.num(df))
    return args, val
LIM = {'e': (0.0, 8.0), 'm': (0.0, 0.5), 'a': (0.0, 2.0), 'u': (0.0, 8.0), 'r': (0.25, 4.0)}

@contract(P, 'SIMP law', T)
def _(c):
    p = c.real('p', 0.0, 8.0); m = c.real('m'); x = c.real('x', 0.0, 1.0)
    c.call('h_simp', p, m, x, ret='real')
    c.ensure('min + (1 - min) x^p', lambda r: c.eq(r.value, simp(c, x, p, m)))
@contract(P, 'SIMP stays between ersatz and full material', T)
def _(c):
    p = c.real('p', 0.125, 8.0); m = c.real('m', 0.0, 1.0); x = c.real('x', 0.0, 1.0)
    c.call('h_simp', p, m, x, ret='real')
    c.ensure('range', lambda r: c.And(c.ge(r.value, m), c.le(r.value, c.num(1))))
    c.ensure('void is ersatz', lambda r: c.implies(c.eq(x, c.num(0)), c.eq(r.value, m)))
    c.ensure('solid is full', lambda r: c.implies(c.eq(x, c.num(1)), c.eq(r.value, c.num(1))))
@contract(P, 'SIMP from an input list, with continuation step', T)
def _(c):
    a, v = params(c, [('e', 3.0), ('m', 1e-9), ('u', 3.0), ('a', 0.1)]); up = c.bool('up'); x = c.real('x', 0.0, 1.0)
    c.call('h_simp_pl', *a, up, x, ret='real')
    c.ensure('declared or default parameters', lambda r: c.eq(r.value, simp(c, x, step(c, up, v['e'], v['a'], v['u']), v['m'])))
@contract(P, 'SIMP from a parameter map', T)
def _(c):
    p = c.real('p'); q = c.real('q'); a, v = params(c, [('e', 3.0), ('m', 1e-9), ('a', 0.1)]); up = c.bool('up'); x = c.real('x', 0.0, 1.0)
    c.call('h_simp_map', p, q, *a, up, x, ret='real')
    c.ensure('declared or default parameters', lambda r: c.eq(r.value, simp(c, x, step(c, up, v['e'], v['a'], c.num(3)), v['m'])))
@contract(P, 'SIMP setters', T)
def _(c):
    p = c.real('p'); q = c.real('q'); e = c.real('e', 0.0, 8.0); m = c.real('m', 0.0, 1.0); a = c.real('a', 0.0, 2.0); up = c.bool('up'); x = c.real('x', 0.0, 1.0)
    c.call('h_simp_set', p, q, e, m, a, up, x, ret='real')
    c.ensure('latest values', lambda r: c.eq(r.value, simp(c, x, step(c, up, e, a, c.num(3)), m)))
@contract(P, 'RAMP law', T)
def _(c):
    x = c.real('x', 0.0, 1.0)
    c.call('h_ramp', x, ret='real')
    c.ensure('law with default parameters', lambda r: c.eq(r.value, ramp(c, x, c.num(3), c.num(0))))
@contract(P, 'RAMP from an input list, with continuation step', T)
def _(c):
    a, v = params(c, [('e', 3.0), ('m', 0.0), ('u', 3.0), ('a', 0.1)]); up = c.bool('up'); x = c.real('x', 0.0, 1.0)
    c.call('h_ramp_pl', *a, up, x, ret='real')
    c.ensure('declared or default parameters', lambda r: c.eq(r.value, ramp(c, x, step(c, up, v['e'], v['a'], v['u']), v['m'])))
    c.ensure('between ersatz and full material', lambda r: c.And(c.ge(r.value, v['m']), c.le(r.value, c.num(1))))
@contract(P, 'RAMP from a parameter map', T)
def _(c):
    a, v = params(c, [('e', 3.0), ('m', 1e-9), ('a', 0.1)]); up = c.bool('up'); x = c.real('x', 0.0, 1.0)
    c.call('h_ramp_map', *a, up, x, ret='real')
    c.ensure('declared or default parameters', lambda r: c.eq(r.value, ramp(c, x, step(c, up, v['e'], v['a'], c.num(3)), v['m'])))
@contract(P, 'Heaviside law', T)
def _(c):
    p = c.real('p', 0.0, 8.0); L = c.real('L', 0.25, 4.0); m = c.real('m', 0.0, 1.0); x = c.real('x')
    c.call('h_heav', p, L, m, x, ret='real')
    c.ensure('smoothed step', lambda r: c.eq(r.value, heav(c, x, p, L, m)))
@contract(P, 'Heaviside from an input list, with continuation step', T)
def _(c):
    a, v = params(c, [('e', 1.0), ('r', 1.0), ('m', 0.0), ('u', 1.0), ('a', 0.1)]); up = c.bool('up'); x = c.real('x')
    c.call('h_heav_pl', *a, up, x, ret='real')
    c.ensure('declared or default parameters', lambda r: c.eq(r.value, heav(c, x, step(c, up, v['e'], v['a'], v['u']), v['r'], v['m'])))
@contract(P, 'Heaviside from a parameter map', T)
def _(c):
    a, v = params(c, [('e', 1.0), ('r', 1.0), ('m', 1e-9), ('a', 0.1)]); up = c.bool('up'); x = c.real('x')
    c.call('h_heav_map', *a, up, x, ret='real')
    c.ensure('declared or default parameters', lambda r: c.eq(r.value, heav(c, x, step(c, up, v['e'], v['a'], c.num(3)), v['r'], v['m'])))
@contract(P, 'no penalty', T)
def _(c):
    x = c.real('x'); c.call('h_nopen', x, ret='real'); c.ensure('one', lambda r: c.eq(r.value, c.num(1)))

def hproj(c, b, x): return 1 - c.fn('exp', -(b * (1 - x))) + (1 - x) * c.fn('exp', -b)
def tproj(c, b, t, x): return (c.fn('tanh', b * t) + c.fn('tanh', b * (x - t))) / (c.fn('tanh', b * t) + c.fn('tanh', b * (1 - t)))
B = (0.25, 16.0)
@contract(P, 'Heaviside projection', T)
def _(c):
    b = c.real('b', *B); x = c.real('x', 0.0, 1.0); c.call('h_hproj', b, x, ret='real')
    c.ensure('law', lambda r: c.eq(r.value, hproj(c, b, x)))
@contract(P, 'Heaviside projection, new curvature', T)
def _(c):
    b = c.real('b', *B); d = c.real('d', *B); x = c.real('x', 0.0, 1.0); c.call('h_hproj_set', b, d, x, ret='real')
    c.ensure('law with the new curvature only', lambda r: c.eq(r.value, hproj(c, d, x)))
@contract(P, 'tanh projection', T)
def _(c):
    b = c.real('b', *B); t = c.real('t', 0.0, 1.0); x = c.real('x', 0.0, 1.0); c.call('h_tproj', b, t, x, ret='real')
    c.ensure('law', lambda r: c.eq(r.value, tproj(c, b, t, x)))
@contract(P, 'tanh projection from an input list', T)
def _(c):
    hb = c.bool('hb'); b = c.real('b', *B); ht = c.bool('ht'); t = c.real('t', 0.0, 1.0); x = c.real('x', 0.0, 1.0); c.call('h_tproj_pl', hb, b, ht, t, x, ret='real')
    c.ensure('law with declared or default parameters', lambda r: c.eq(r.value, tproj(c, c.If(hb, b, c.num(10)), c.If(ht, t, c.num(0.5)), x)))
for k, nm in (('setb', 'curvature'), ('sett', 'threshold'), ('set2', 'curvature and threshold')):
    @contract(P, 'tanh projection, new ' + nm, T)
    def _(c, k=k):
        b = c.real('b', *B); t = c.real('t', 0.0, 1.0); x = c.real('x', 0.0, 1.0)
        if k == 'setb': n = (c.real('d', *B), t); a = (n[0],)
        elif k == 'sett': n = (b, c.real('s', 0.0, 1.0)); a = (n[1],)
        else: n = (c.real('d', *B), c.real('s', 0.0, 1.0)); a = n
        c.call('h_tproj_' + k, b, t, *a, x, ret='real')
        c.ensure('law with the new parameters only', lambda r: c.eq(r.value, tproj(c, n[0], n[1], x)))

@contract(P, 'penalty applied to every column', T)
def _(c):
    n = c.size('n', 1, (1, 2)); w = c.size('w', 0, (0, 1, 2)); p = c.real('p', 0.0, 8.0); m = c.real('m', 0.0, 1.0); x = c.view('x', [n], lo=0.0, hi=1.0); o = c.view('o', [n, w])
    c.call('h_ap2', n, p, m, x, o); c.modifies(o)
    c.ensure_all('scaled by the penalty of its own cell', [n, w], lambda r, i, j: c.eq(r.new(o, i, j), o(i, j) * simp(c, x(i), p, m)))
@contract(P, 'penalty applied to every block entry', T)
def _(c):
    n = c.size('n', 1, (1, 2)); w = c.size('w', 0, (0, 1, 2)); v = c.size('v', 0, (0, 1, 2)); x = c.view('x', [n], lo=0.0, hi=1.0); o = c.view('o', [n, w, v])
    c.call('h_ap3', n, x, o); c.modifies(o)
    c.ensure_all('scaled by the penalty of its own cell', [n, w, v], lambda r, i, j, k: c.eq(r.new(o, i, j, k), o(i, j, k) * ramp(c, x(i), c.num(3), c.num(0))))
@contract(P, 'projection of the mean control', T)
def _(c):
    n = c.size('n', 1, (1, 2)); w = c.size('w', 1, (1, 2, 3)); b = c.real('b', *B); x = c.view('x', [n, w], lo=0.0, hi=1.0); o = c.vec('o', n)
    c.call('h_aproj', n, b, x, o); c.modifies(o)
    c.ensure_all('projection of the mean', [n], lambda r, i: c.eq(r.new(o, i), hproj(c, b, c.sum(w, lambda k: x(i, k)) / c.real_of(w))))
for D, N in ((1, 1), (2, 3), (3, 6)):
    def mean(c, x, i, D=D): return S(c, (x(i, k) for k in range(D + 1))) / (D + 1)
    for k in ('w2i', 'w2o', 'w1i', 'w1o', 'wup'):
        @contract(P, 'weighting %s, %dD, %d terms' % ({'w2i': 'in place', 'w2o': 'to output', 'w1i': 'of a scalar in place', 'w1o': 'of a scalar to output', 'wup': 'after continuation'}[k], D, N), T)
        def _(c, k=k, D=D, N=N, mean=mean):
            n = c.size('n', 1, (1, 2)); x = c.view('x', [n, D + 1], lo=0.0, hi=1.0)
            two = k[1] == '2'; dims = [n, N] if two else [n]
            p = m = None
            if k != 'wup': p = c.real('p', 0.0, 8.0); m = c.real('m', 0.0, 1.0)
            a = c.view('a', dims) if k[2] == 'o' else None; o = c.view('o', dims); src = a or o
            pre = [] if k == 'wup' else [p, m]
            c.call('h_%s%d%d' % (k, D, N), n, *pre, *([a] if a else []), o, x); c.modifies(o)
            f = lambda i: ramp(c, mean(c, x, i), c.num(3), c.num(0)) if k == 'wup' else simp(c, mean(c, x, i), p, m)
            if two: c.ensure_all('times penalty of the mean control', dims, lambda r, i, j: c.eq(r.new(o, i, j), src(i, j) * f(i)))
            else: c.ensure_all('times penalty of the mean control', dims, lambda r, i: c.eq(r.new(o, i), src(i) * f(i)))
for N in (1, 3, 4, 6):
    def mk(N):
        @contract(P, 'cell mass of %d nodes' % N, T)
        def _(c):
            n = c.size('n', 0, (0, 1, 2)); b = c.view('b', [N]); x = c.view('x', [n, N]); o = c.vec('o', n); c.call('h_cm%d' % N, n, b, x, o); c.modifies(o)
            c.ensure_all('sum over the mass matrix times the controls', [n], lambda r, i: c.eq(r.new(o, i), S(c, (b(p) for p in range(N))) * S(c, (b(q) * x(i, q) for q in range(N)))))
        @contract(P, 'cell density of %d controls' % N, T)
        def _(c):
            n = c.size('n', 0, (0, 1, 2)); x = c.view('x', [n, N]); o = c.vec('o', n); c.call('h_cd%d' % N, n, x, o); c.modifies(o)
            c.ensure_all('mean of the controls', [n], lambda r, i: c.eq(r.new(o, i), S(c, (x(i, q) for q in range(N))) / N))
        @contract(P, 'penalty on %d terms' % N, T)
        def _(c):
            n = c.size('n', 0, (0, 1, 2)); p = c.vec('p', n); o = c.view('o', [n, N + 1]); c.call('h_pen%d' % N, n, p, o); c.modifies(o)
            c.ensure_all('every term times the penalty', [n, N], lambda r, i, j: c.eq(r.new(o, i, j), o(i, j) * p(i)))
            c.ensure_all('other entries kept', [n], lambda r, i: c.eq(r.new(o, i, N), o(i, N)))
    mk(N)

for fn, n in (('h_heav_0', 0), ('h_heav_1', 1), ('h_heav_2', 2)):
    @contract(P, 'smooth step with %d of its parameters given' % n, T)
    def _(c, fn=fn, n=n):
        p = c.real('p', 0.0, 8.0) if n else c.num(1); L = c.real('L', 0.25, 4.0) if n == 2 else c.num(1); up = c.bool('up') if n == 0 else False; x = c.real('x')
        c.call(fn, *([p] if n else [up]), *([L] if n == 2 else []), x, ret='real')
        if n == 0: p = c.If(up, c.num(1.1), c.num(1))
        c.ensure('documented defaults', lambda r: c.eq(r.value, heav(c, x, p, L, c.num(0))))
@contract(P, 'Heaviside projection with its default', T)
def _(c): x = c.real('x', 0.0, 1.0); c.call('h_hproj_0', x, ret='real'); c.ensure('curvature ten', lambda r: c.eq(r.value, hproj(c, c.num(10), x)))
@contract(P, 'tanh projection with its defaults', T)
def _(c): x = c.real('x', 0.0, 1.0); c.call('h_tproj_0', x, ret='real'); c.ensure('curvature ten, threshold one half', lambda r: c.eq(r.value, tproj(c, c.num(10), c.num(0.5), x)))
@contract(P, 'tanh projection with a default threshold', T)
def _(c): b = c.real('b', *B); x = c.real('x', 0.0, 1.0); c.call('h_tproj_1', b, x, ret='real'); c.ensure('threshold one half', lambda r: c.eq(r.value, tproj(c, b, c.num(0.5), x)))
