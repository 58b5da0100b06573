from contract import contract
P, T = 'P01', 'p01.cpp'

@contract(P, 'dot', T)
def _(c):
    n = c.size('n', 0, (0, 1, 3)); m = c.size('m', 0, (0, 1, 3))
    a = c.vec('a', n); b = c.vec('b', m)
    c.call('h_dot', a, b, ret='real')
    c.throws_iff(c.ne(n, m))
    c.ensure('value is the sum of products', lambda r: c.eq(r.value, c.sum(n, lambda i: a(i) * b(i))))

@contract(P, 'norm', T)
def _(c):
    n = c.size('n', 0, (0, 1, 3))
    a = c.vec('a', n)
    c.call('h_norm', a, ret='real')
    c.throws_iff(c.eq(n, 0))
    c.ensure('Euclidean norm', lambda r: c.eq(r.value, c.sqrt(c.sum(n, lambda i: a(i) * a(i)))))
    c.ensure('not negative', lambda r: c.ge(r.value, 0))

@contract(P, 'fill', T)
def _(c):
    n = c.size('n', 0, (0, 1, 3))
    s = c.real('s', special=True); a = c.vec('a', n)
    c.call('h_fill', s, a); c.modifies(a)
    c.throws_iff(c.Or(c.eq(n, 0), c.Not(c.isfinite(s))))
    c.ensure_all('every entry set', [n], lambda r, i: c.eq(r.new(a, i), s))

def distinct(rng, dims, hi):
    l = list(range(hi)); rng.shuffle(l); return l[:dims[0]]

@contract(P, 'fill at ordinals', T)
def _(c):
    n = c.size('n', 1, (2, 3)); m = c.size('m', 1, (1, 2))
    c.requires(c.le(m, n))
    s = c.real('s', special=True)
    o = c.iview('o', [m], 0, n, gen=lambda g, d: distinct(g, d, n)); v = c.vec('v', m); a = c.vec('a', n)
    c.requires_all([m, m], lambda i, j: c.Or(c.eq(i, j), c.ne(o(i), o(j))))
    c.call('h_fill_ord', s, o, v, a); c.modifies(a)
    c.throws_iff(c.Not(c.isfinite(s)))
    c.ensure_all('listed entries set', [m], lambda r, j: c.eq(r.new(a, o(j)), s * v(j)))

@contract(P, 'fill at ordinals leaves the rest', T)
def _(c):
    n = c.size('n', 1, (2, 3)); m = c.size('m', 1, (1, 2))
    c.requires(c.lt(m, n))
    s = c.real('s'); x = c.int('x', 0)
    c.requires(c.lt(x, n))
    o = c.iview('o', [m], 0, n, gen=lambda g, d: [i for i in distinct(g, [n], n) if i != x][:m] or [0] * m); v = c.vec('v', m); a = c.vec('a', n)
    c.requires_all([m, m], lambda i, j: c.Or(c.eq(i, j), c.ne(o(i), o(j))))
    c.requires_all([m], lambda i: c.ne(o(i), x))
    c.call('h_fill_ord', s, o, v, a); c.modifies(a)
    c.ensure('unlisted entry kept', lambda r: c.eq(r.new(a, x), a(x)))

@contract(P, 'copy', T)
def _(c):
    n = c.size('n', 0, (0, 1, 3)); m = c.size('m', 0, (0, 1, 3))
    a = c.vec('a', n); b = c.vec('b', m)
    c.call('h_copy', a, b); c.modifies(b)
    c.throws_iff(c.ne(n, m))
    c.ensure_all('copied', [n], lambda r, i: c.eq(r.new(b, i), a(i)))

@contract(P, 'scale', T)
def _(c):
    n = c.size('n', 0, (0, 1, 3))
    s = c.real('s', special=True); a = c.vec('a', n)
    c.call('h_scale', s, a); c.modifies(a)
    c.throws_iff(c.Or(c.Not(c.isfinite(s)), c.eq(n, 0)))
    c.ensure_all('scaled', [n], lambda r, i: c.eq(r.new(a, i), s * a(i)))

@contract(P, 'axpy', T)
def _(c):
    n = c.size('n', 0, (0, 1, 3)); m = c.size('m', 0, (0, 1, 3))
    s = c.real('s'); a = c.vec('a', n); b = c.vec('b', m)
    c.call('h_axpy', s, a, b); c.modifies(b)
    c.throws_iff(c.ne(n, m))
    c.ensure_all('b = b + s a', [n], lambda r, i: c.eq(r.new(b, i), b(i) + s * a(i)))

@contract(P, 'update', T)
def _(c):
    n = c.size('n', 0, (0, 1, 3)); m = c.size('m', 0, (0, 1, 3))
    s = c.real('s', special=True); t = c.real('t', special=True); a = c.vec('a', n); b = c.vec('b', m)
    c.call('h_update', s, a, t, b); c.modifies(b)
    c.throws_iff(c.Or(c.ne(n, m), c.Not(c.isfinite(s)), c.Not(c.isfinite(t))))
    c.ensure_all('b = s a + t b', [n], lambda r, i: c.eq(r.new(b, i), s * a(i) + t * b(i)))

@contract(P, 'local_sum', T)
def _(c):
    n = c.size('n', 0, (0, 1, 3)); a = c.vec('a', n)
    c.call('h_local_sum', a, ret='real')
    c.throws_iff(c.eq(n, 0))
    c.ensure('sum', lambda r: c.eq(r.value, c.sum(n, lambda i: a(i))))

for kind in ('max', 'min'):
    def mk(kind):
        @contract(P, kind, T)
        def _(c):
            n = c.size('n', 0, (0, 1, 3)); a = c.view('a', [n], lo=-1000, hi=1000)
            c.call('h_' + kind, a, ret='real')
            c.throws_iff(c.eq(n, 0))
            c.ensure('extremum', lambda r: c.eq(r.value, c.maxof(n, lambda i: a(i)) if kind == 'max' else c.minof(n, lambda i: a(i))))
    mk(kind)

for S, O in ((3, 1), (4, 2), (2, 0)):
    def mk(S, O):
        @contract(P, 'extract<%d,%d>' % (S, O), T)
        def _(c):
            n = c.size('n', 1, (1, 2, 3)); f = c.size('f', 1, (3, 5, 8, 12)); c.requires(c.lt(S * (n - 1) + O, f))
            a = c.vec('a', f); b = c.vec('b', n)
            c.call('h_extract%d%d' % (S, O), a, b); c.modifies(b)
            c.ensure_all('strided entries', [n], lambda r, i: c.eq(r.new(b, i), a(S * i + O)))
    mk(S, O)

@contract(P, 'extract rejects', T)
def _(c):
    n = c.size('n', 0, (0, 1)); f = c.size('f', 0, (0, 2)); c.requires(c.Or(c.eq(n, 0), c.eq(f, 0), c.lt(2 * (n - 1), f)))
    a = c.vec('a', f); b = c.vec('b', n)
    c.call('h_extract20', a, b); c.modifies(b); c.throws_iff(c.Or(c.eq(n, 0), c.eq(f, 0)))

@contract(P, 'random', T)
def _(c):
    n = c.size('n', 0, (0, 1, 3)); a = c.vec('a', n); lo = c.real('lo'); hi = c.real('hi')
    c.requires(c.le(lo, hi))
    c.call('h_random', lo, hi, a); c.modifies(a)
    c.ensure_all('within bounds', [n], lambda r, i: c.And(c.le(lo, r.new(a, i)), c.le(r.new(a, i), hi)))
