from contract import contract
P, T = 'P19', 'p19.cpp'
for k, nm in (('rel', 'relative'), ('abs', 'absolute')):
    def mk(k, nm):
        def base(c, f):
            it = c.int('it', 0, 5); cur = c.real('cur', special=True); ref = c.real('ref', special=True); me = c.real('me')
            c.call('h_%s_%s' % (k, f), it, cur, ref, me, ret='real'); ok = c.And(c.isfinite(cur), c.isfinite(ref)); c.throws_iff(c.Not(ok))
            return it, cur, ref, me
        @contract(P, '%s residual measure' % nm, T)
        def _(c):
            it, cur, ref, me = base(c, 'm')
            new = c.abs(ref - cur) / c.abs(cur) if k == 'rel' else c.abs(ref - cur)
            c.ensure('kept on the first iteration', lambda r: c.implies(c.eq(it, 0), c.eq(r.value, me)))
            c.ensure('change of the norm afterwards', lambda r: c.implies(c.And(c.ne(it, 0), c.ne(cur, 0)), c.eq(r.value, new)))
        @contract(P, '%s residual reference' % nm, T)
        def _(c):
            it, cur, ref, me = base(c, 'r'); c.ensure('becomes the current norm', lambda r: c.eq(r.value, cur))
        @contract(P, '%s residual norm kept' % nm, T)
        def _(c):
            it, cur, ref, me = base(c, 'c'); c.ensure('current norm unchanged', lambda r: c.eq(r.value, cur))
        @contract(P, '%s residual measure over three iterations' % nm, T)
        def _(c):
            a = c.real('a', 0.125); b = c.real('b', 0.125); d = c.real('d', 0.125); c.call('h_%s_h' % k, a, b, d, ret='real')
            c.ensure('between the last two norms', lambda r: c.eq(r.value, c.abs(b - d) / (c.abs(d) if k == 'rel' else 1)))
    mk(k, nm)
@contract(P, 'initial state of the iteration', T)
def _(c):
    k = c.int('k', 0, 1); c.call('h_dflt', k, ret='int'); c.ensure('not converged, absolute measure, largest norms', lambda r: c.eq(r.value, 1))
for s, v in (('absolute residual norm', 1), ('Absolute Residual Norm', 1), ('ABSOLUTE RESIDUAL NORM', 1), ('relative residual norm', 2), ('Relative residual Norm', 2), ('RELATIVE RESIDUAL NORM', 2),
             ('', None), ('absolute', None), ('relative residual norm ', None), ('displacement norm', None)):
    def mk(s, v):
        @contract(P, 'stopping criterion named "%s"' % s, T)
        def _(c):
            c.call('h_crit', c.text(s), ret='int')
            if v is None: c.throws_iff(c.eq(c.num(0), c.num(0)))
            else: c.ensure('recognised', lambda r: c.eq(r.value, v))
    mk(s, v)
for k, nm in enumerate(('stop reason', 'iteration line', 'header')):
    @contract(P, 'diagnostics to a closed file are an error only when requested, %s' % nm, T)
    def _(c, k=k): w = c.bool('w'); s = c.int('s', 0, 5); c.call('h_closed', k, w, s); c.throws_iff(w)
