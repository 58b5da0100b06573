from contract import contract
P, T = 'P11', 'p11.cpp'
def prm(c):
    g = c.real('g', 0.0, 1.0); b = c.real('b', 0.0625, 1.0); dt = c.real('dt', 0.0625, 4.0)
    c.requires(c.gt(b, 0)); c.requires(c.gt(dt, 0)); return g, b, dt
def vecs(c, n, names): return [c.vec(x, n) for x in names]
@contract(P, 'Newmark velocity residual', T)
def _(c):
    n = c.size('n', 0, (0, 1, 3)); g, b, dt = prm(c); u, up, v, vp, a, ap, o = vecs(c, n, ('u', 'up', 'v', 'vp', 'a', 'ap', 'o'))
    c.call('h_nv', g, b, dt, u, up, v, vp, a, ap, o); c.modifies(o)
    # V = Vp + (1-g) dt Ap + g dt A with A eliminated by the displacement update
    c.ensure_all('zero exactly at the Newmark velocity', [n], lambda r, i: c.eq(r.new(o, i),
        v(i) - (vp(i) + (1 - g) * dt * ap(i) + g * dt * ((u(i) - up(i) - dt * vp(i) - dt * dt * (c.q(1, 2) - b) * ap(i)) / (b * dt * dt)))))
@contract(P, 'Newmark acceleration residual', T)
def _(c):
    n = c.size('n', 0, (0, 1, 3)); g, b, dt = prm(c); u, up, v, vp, a, ap, o = vecs(c, n, ('u', 'up', 'v', 'vp', 'a', 'ap', 'o'))
    c.call('h_na', g, b, dt, u, up, v, vp, a, ap, o); c.modifies(o)
    c.ensure_all('zero exactly at the Newmark acceleration', [n], lambda r, i: c.eq(r.new(o, i),
        a(i) - (u(i) - up(i) - dt * vp(i) - dt * dt * (c.q(1, 2) - b) * ap(i)) / (b * dt * dt)))
# derivative of the residuals above: coefficients of the (affine) residual
GR = {'v_grad_u': lambda c, g, b, t: -(g / (b * t)), 'v_grad_u_prev': lambda c, g, b, t: g / (b * t), 'v_grad_v_prev': lambda c, g, b, t: g / b - 1,
      'v_grad_a_prev': lambda c, g, b, t: t * (g * (c.q(1, 2) - b) / b - (1 - g)),
      'a_grad_u': lambda c, g, b, t: -(1 / (b * t * t)), 'a_grad_u_prev': lambda c, g, b, t: 1 / (b * t * t), 'a_grad_v_prev': lambda c, g, b, t: 1 / (b * t),
      'a_grad_a_prev': lambda c, g, b, t: (c.q(1, 2) - b) / b}
for f in GR:
    def mk(f):
        @contract(P, 'Newmark derivative ' + f, T)
        def _(c):
            g, b, dt = prm(c); c.call('h_n_' + f, g, b, dt, ret='real')
            c.ensure('coefficient of the residual', lambda r: c.eq(r.value, GR[f](c, g, b, dt)))
    mk(f)
def tp(c):
    h = c.bool('h'); al = c.real('al', 0.0625, 1.0); dt = c.real('dt', 0.0625, 4.0); c.requires(c.gt(al, 0)); c.requires(c.gt(dt, 0))
    return h, al, dt, c.If(h, al, c.q(1, 2))
@contract(P, 'trapezoid rate residual', T)
def _(c):
    n = c.size('n', 0, (0, 1, 3)); h, al, dt, A = tp(c); u, up, v, vp, o = vecs(c, n, ('u', 'up', 'v', 'vp', 'o')); c.call('h_tv', h, al, dt, u, up, v, vp, o); c.modifies(o)
    c.ensure_all('zero exactly when u = u_prev + dt((1-alpha) v_prev + alpha v)', [n], lambda r, i: c.eq(r.new(o, i) * (A * dt), up(i) + dt * ((1 - A) * vp(i) + A * v(i)) - u(i)))
for f, w in (('v_grad_u', lambda A, t: -(1 / (A * t))), ('v_grad_u_prev', lambda A, t: 1 / (A * t)), ('v_grad_v_prev', lambda A, t: (1 - A) / A)):
    def mk(f, w):
        @contract(P, 'trapezoid derivative ' + f, T)
        def _(c):
            h, al, dt, A = tp(c); c.call('h_t_' + f, h, al, dt, ret='real'); c.ensure('coefficient of the residual', lambda r: c.eq(r.value, w(A, dt)))
    mk(f, w)
@contract(P, 'missing Newmark coefficient is an error', T)
def _(c):
    a = c.bool('a'); b = c.bool('b'); g = c.real('g', 0.0, 1.0); c.call('h_nm', a, b, g); c.throws_iff(c.Not(c.And(a, b)))
