import math
from contract import contract
P, T = 'P20', 'p20.cpp'
def ad(c, fn, args, val, der, lo, hi, pre=None):
    x = c.real('x', lo, hi); a = c.real('a', -3.0, 3.0); b = c.real('b', -3.0, 3.0); k = c.int('k', 0, 2)
    if pre: c.requires(pre(x))
    c.call(fn, *args, x, a, b, k, ret='real')
    c.ensure('the value is that of plain numbers', lambda r: c.implies(c.eq(k, 0), c.eq(r.value, val(x))))
    c.ensure('the derivative follows the chain rule', lambda r: c.implies(c.eq(k, 1), c.eq(r.value, der(x) * a)))
    c.ensure('the derivative follows the chain rule in every direction', lambda r: c.implies(c.eq(k, 2), c.eq(r.value, der(x) * b)))
@contract(P, 'SIMP sensitivity', T)
def _(c):
    p = c.real('p', 1.0, 8.0); m = c.real('m', 0.0, 0.5)
    ad(c, 'h_simp', (p, m), lambda x: m + (1 - m) * c.pow(x, p), lambda x: c.If(c.eq(p, c.num(1)), 1 - m, (1 - m) * p * c.pow(x, p) / x), 0.0625, 1.0)
@contract(P, 'RAMP sensitivity', T)
def _(c):
    ad(c, 'h_ramp', (), lambda x: x / (1 + 3 * (1 - x)), lambda x: 4 / ((1 + 3 * (1 - x)) * (1 + 3 * (1 - x))), 0.0, 1.0)
@contract(P, 'unpenalised sensitivity', T)
def _(c):
    ad(c, 'h_nopen', (), lambda x: c.num(1), lambda x: c.num(0), None, None)
@contract(P, 'smooth step sensitivity', T)
def _(c):
    p = c.real('p', 1.0, 8.0); l = c.real('l', 0.25, 4.0); m = c.real('m', 0.0, 0.5)
    ang = lambda x: c.num(math.pi) * x / (2 * l)
    half = lambda x: (1 + c.fn('sin', ang(x))) / 2
    ad(c, 'h_heav', (p, l, m), lambda x: c.If(c.le(x, -l), m, c.If(c.ge(x, l), c.num(1), m + (1 - m) * c.pow(half(x), p))),
       lambda x: c.If(c.Or(c.le(x, -l), c.ge(x, l)), c.num(0), (1 - m) * c.If(c.eq(p, c.num(1)), c.num(1), p * c.pow(half(x), p) / half(x)) * c.fn('cos', ang(x)) * c.num(math.pi) / (4 * l)), -4.0, 4.0,
       lambda x: c.Or(c.le(x, -l), c.gt(half(x), c.num(0.0625))))
@contract(P, 'Heaviside projection sensitivity', T)
def _(c):
    t = c.real('t', 0.0, 8.0)
    ad(c, 'h_hproj', (t,), lambda x: 1 - c.fn('exp', -(t * (1 - x))) + (1 - x) * c.fn('exp', -t), lambda x: -t * c.fn('exp', -(t * (1 - x))) - c.fn('exp', -t), 0.0, 1.0)
@contract(P, 'hyperbolic tangent projection sensitivity', T)
def _(c):
    t = c.real('t', 0.5, 8.0); e = c.real('e', 0.0, 1.0); th = lambda v: c.fn('tanh', v)
    den = th(t * e) + th(t * (1 - e))
    ad(c, 'h_tproj', (t, e), lambda x: (th(t * e) + th(t * (x - e))) / den, lambda x: t * (1 - th(t * (x - e)) * th(t * (x - e))) / den, 0.0, 1.0)
@contract(P, 'quadratic material law sensitivity', T)
def _(c):
    c0 = c.real('c0'); c1 = c.real('c1'); c2 = c.real('c2')
    ad(c, 'h_scf', (c0, c1, c2), lambda x: c0 + c1 * x + c2 * x * x, lambda x: c1 + 2 * c2 * x, None, None)
for fn, name in (('h_tf', 'quadratic tensor law'), ('h_rf', 'quadratic stiffness law')):
    @contract(P, name + ' sensitivity', T)
    def _(c, fn=fn):
        c0 = c.real('c0'); c1 = c.real('c1'); c2 = c.real('c2')
        ad(c, fn, (c0, c1, c2), lambda x: c0 + c1 * x + c2 * x * x, lambda x: c1 + 2 * c2 * x, None, None)

SIMPV = lambda c, p, m: (lambda x: m + (1 - m) * c.pow(x, p), lambda x: c.If(c.eq(p, c.num(1)), 1 - m, (1 - m) * p * c.pow(x, p) / x))
def heav(c, p, l, m):
    ang = lambda x: c.num(math.pi) * x / (2 * l); half = lambda x: (1 + c.fn('sin', ang(x))) / 2
    return (lambda x: c.If(c.le(x, -l), m, c.If(c.ge(x, l), c.num(1), m + (1 - m) * c.pow(half(x), p))),
       lambda x: c.If(c.Or(c.le(x, -l), c.ge(x, l)), c.num(0), (1 - m) * c.If(c.eq(p, c.num(1)), c.num(1), p * c.pow(half(x), p) / half(x)) * c.fn('cos', ang(x)) * c.num(math.pi) / (4 * l)), -4.0, 4.0,
       lambda x: c.Or(c.le(x, -l), c.gt(half(x), c.num(0.0625))))
HOW = ('an input list', 'a parameter map', 'setters')
for how in (0, 1, 2):
    @contract(P, 'SIMP sensitivity with parameters from %s' % HOW[how], T)
    def _(c, how=how): p = c.real('p', 1.0, 8.0); m = c.real('m', 0.0, 0.5); ad(c, 'h_simp2', (how, p, m), *SIMPV(c, p, m), 0.0625, 1.0)
    if how < 2:
        @contract(P, 'RAMP sensitivity with parameters from %s' % HOW[how], T)
        def _(c, how=how):
            p = c.real('p', 0.0, 8.0); m = c.real('m', 0.0, 0.5); d = lambda x: 1 + p * (1 - x)
            ad(c, 'h_ramp2', (how, p, m), lambda x: m + (1 - m) * x / d(x), lambda x: (1 - m) * (1 + p) / (d(x) * d(x)), 0.0, 1.0)
        @contract(P, 'smooth step sensitivity with parameters from %s' % HOW[how], T)
        def _(c, how=how): p = c.real('p', 1.0, 8.0); l = c.real('l', 0.25, 4.0); m = c.real('m', 0.0, 0.5); ad(c, 'h_heav2', (how, p, l, m), *heav(c, p, l, m))
@contract(P, 'smooth step sensitivity with default parameters', T)
def _(c): ad(c, 'h_heav0', (), *heav(c, c.num(1), c.num(1), c.num(0)))
@contract(P, 'Heaviside projection sensitivity after a new curvature', T)
def _(c):
    t = c.real('t', 0.0, 8.0)
    ad(c, 'h_hproj2', (t,), lambda x: 1 - c.fn('exp', -(t * (1 - x))) + (1 - x) * c.fn('exp', -t), lambda x: -t * c.fn('exp', -(t * (1 - x))) - c.fn('exp', -t), 0.0, 1.0)
for how in (0, 1, 2, 3):
    @contract(P, 'hyperbolic tangent projection sensitivity with parameters from %s' % ('both at once', 'curvature then threshold', 'an input list', 'threshold then curvature')[how], T)
    def _(c, how=how):
        t = c.real('t', 0.5, 8.0); e = c.real('e', 0.0, 1.0); th = lambda v: c.fn('tanh', v); den = th(t * e) + th(t * (1 - e))
        ad(c, 'h_tproj3' if how == 3 else 'h_tproj2', (t, e) if how == 3 else (how, t, e), lambda x: (th(t * e) + th(t * (x - e))) / den, lambda x: t * (1 - th(t * (x - e)) * th(t * (x - e))) / den, 0.0, 1.0)
for fn, nm in (('h_scf0', 'a number'), ('h_scf1', 'a constant coefficient only')):
    @contract(P, 'material law sensitivity from %s' % nm, T)
    def _(c, fn=fn): c0 = c.real('c0'); ad(c, fn, (c0,), lambda x: c0, lambda x: c.num(0), None, None)
for fn, nm in (('h_tf0', 'zero tensor law'), ('h_rf0', 'zero stiffness law')):
    @contract(P, nm + ' sensitivity', T)
    def _(c, fn=fn): n = 3 if fn == 'h_tf0' else 6; i = c.int('i', 0, n - 1); j = c.int('j', 0, n - 1); ad(c, fn, (i, j), lambda x: c.num(0), lambda x: c.num(0), None, None)
@contract(P, 'constant isotropic tensor law sensitivity', T)
def _(c): c0 = c.real('c0'); i = c.int('i', 0, 2); j = c.int('j', 0, 2); ad(c, 'h_tf1', (c0, i, j), lambda x: c.If(c.eq(i, j), c0, c.num(0)), lambda x: c.num(0), None, None)
@contract(P, 'isotropic tensor law sensitivity', T)
def _(c):
    c0 = c.real('c0'); c1 = c.real('c1'); c2 = c.real('c2'); i = c.int('i', 0, 2); j = c.int('j', 0, 2); z = c.num(0)
    ad(c, 'h_tf2', (c0, c1, c2, i, j), lambda x: c.If(c.eq(i, j), c0 + c1 * x + c2 * x * x, z), lambda x: c.If(c.eq(i, j), c1 + 2 * c2 * x, z), None, None)
for fn, n in (('h_tc0', 3), ('h_rc0', 6)):
    @contract(P, 'zero constant, %d by %d' % (n, n), T)
    def _(c, fn=fn, n=n): i = c.int('i', 0, n - 1); j = c.int('j', 0, n - 1); c.call(fn, i, j, ret='real'); c.ensure('zero', lambda r: c.eq(r.value, c.num(0)))
@contract(P, 'isotropic constant tensor', T)
def _(c): c0 = c.real('c0'); i = c.int('i', 0, 2); j = c.int('j', 0, 2); c.call('h_tc1', c0, i, j, ret='real'); c.ensure('on the diagonal only', lambda r: c.eq(r.value, c.If(c.eq(i, j), c0, c.num(0))))
