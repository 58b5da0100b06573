"""Algebraic rocket model: cylinder geometry, chamber pressure, thrust."""
import math
from fractions import Fraction
from contract import contract, Reject
P, T = 'P15', 'p15.cpp'
PI = Fraction(repr(math.pi))

@contract(P, 'cylinder geometry', T)
def _(c):
    L = c.real('L'); R = c.real('R'); b = c.real('b'); rho = c.real('rho'); dt = c.real('dt'); m = c.real('m')
    o = c.vec('o', 11); c.call('h_cyl', L, R, b, rho, dt, m, o); c.modifies(o)
    pi2 = c.num(2 * PI)
    def e(k, v): c.ensure(['radius', 'length', 'side area', 'mass rate', 'area derivative by radius', 'area derivative by length', 'radius after burning', 'length after burning', 'area after burning', 'mass rate after burning', 'area after update'][k], lambda r: c.eq(r.new(o, k), v))
    R1 = R + m * b * dt
    for k, v in enumerate([R, L, pi2 * R * L, b * rho * pi2 * R * L, pi2 * L, pi2 * R, R1, L, pi2 * R1 * L, b * rho * pi2 * R1 * L, pi2 * L * R]): e(k, v)

def profile(c, n, al, L, R, b, rho, dt, pr, dia, amb, cs):
    """the specification, one Newton update per time step (iteration limit zero)"""
    out = []; t = 0; f = c.num(0); p = pr; A = c.num(PI) * dia * dia / 4
    inv = 1 / c.pow(pr, al)
    for k in range(n):
        out.append((t, f, p)); m = b * rho * c.num(2 * PI) * R * L
        res = m * inv * c.pow(p, al) - A * p / cs; jac = m * al * inv * c.pow(p, al - 1) - A / cs
        p = p - res / jac; f = c.num(Fraction(repr(269.0 * 9.8))) * A * (p - amb) / cs
        R = R + c.pow(p, al) * inv * b * dt; t = t + dt
    return out
def inputs(c):
    pos = lambda nm, lo, hi: c.real(nm, lo=lo, hi=hi)
    return dict(L=pos('L', Fraction(1, 4), 4), R=pos('R', Fraction(1, 8), 2), b=pos('b', Fraction(1, 256), Fraction(1, 64)), rho=pos('rho', 1000, 2000), pr=pos('pr', 1000000, 4000000), dia=pos('dia', Fraction(1, 16), Fraction(1, 8)), amb=pos('amb', 1, 1000), cs=pos('cs', 1000, 2000))
def run(c, n, how, extra=0):
    v = inputs(c); dt = Fraction(1, 4); al = Fraction(1, 2)
    o = c.vec('o', 3 * n + 1 + extra); a = [v['L'], v['R'], v['b'], v['rho'], c.num(al), c.num(dt), v['pr'], c.num(dt * n - Fraction(1, 8)), v['dia'], c.num(Fraction('0.000001')), v['amb'], v['cs'], 0]
    c.call(how, *(a + [0] if how == 'h_rocket' else a), o); c.modifies(o)
    want = lambda: profile(c, n, c.num(al), v['L'], v['R'], v['b'], v['rho'], c.num(dt), v['pr'], v['dia'], v['amb'], v['cs'])
    c.ensure('snapshots', lambda r: c.eq(r.new(o, 0), n))
    for k in range(n):
        def mk(k):
            c.ensure('time %d' % k, lambda r: c.eq(r.new(o, 1 + 3 * k), want()[k][0]))
            c.ensure('thrust %d' % k, lambda r: c.eq(r.new(o, 2 + 3 * k), want()[k][1]))
            c.ensure('pressure %d' % k, lambda r: c.eq(r.new(o, 3 + 3 * k), want()[k][2]))
        mk(k)
for n in (1, 2, 3):
    def mk(n):
        @contract(P, 'one Newton update per step, %d snapshots' % n, T)
        def _(c): run(c, n, 'h_rocket')
    mk(n)
@contract(P, 'model set up through its setters', T)
def _(c): run(c, 2, 'h_rocket_set')

@contract(P, 'running the model again starts from the given geometry', T)
def _(c):
    v = inputs(c); n = 2; dt = Fraction(1, 4); al = Fraction(1, 2); o = c.vec('o', 3 * n + 1)
    c.call('h_rocket', v['L'], v['R'], v['b'], v['rho'], c.num(al), c.num(dt), v['pr'], c.num(dt * n - Fraction(1, 8)), v['dia'], c.num(Fraction('0.000001')), v['amb'], v['cs'], 0, 1, o); c.modifies(o)
    want = lambda: profile(c, n, c.num(al), v['L'], v['R'], v['b'], v['rho'], c.num(dt), v['pr'], v['dia'], v['amb'], v['cs'])
    c.ensure('snapshots', lambda r: c.eq(r.new(o, 0), n))
    c.ensure('last pressure', lambda r: c.eq(r.new(o, 6), want()[1][2]))
    c.ensure('last thrust', lambda r: c.eq(r.new(o, 5), want()[1][1]))

@contract(P, 'second Newton update only while the pressure change is not below the tolerance', T)
def _(c):
    v = inputs(c); dt = Fraction(1, 4); al = Fraction(1, 2); tol = c.real('tol', lo=Fraction(1, 1000000), hi=Fraction(1, 10)); o = c.vec('o', 7)
    c.call('h_rocket', v['L'], v['R'], v['b'], v['rho'], c.num(al), c.num(dt), v['pr'], c.num(Fraction(3, 8)), v['dia'], tol, v['amb'], v['cs'], 1, 0, o); c.modifies(o)
    A = c.num(PI) * v['dia'] * v['dia'] / 4; inv = 1 / c.pow(v['pr'], c.num(al)); m = v['b'] * v['rho'] * c.num(2 * PI) * v['R'] * v['L']
    def step(p): return (m * inv * c.pow(p, c.num(al)) - A * p / v['cs']) / (m * c.num(al) * inv * c.pow(p, c.num(al) - 1) - A / v['cs'])
    p0 = v['pr']; d1 = step(p0); p1 = p0 - d1; c.requires(c.ne(m * c.num(al) * inv * c.pow(p0, c.num(al) - 1) - A / v['cs'], c.num(0)))
    c.ensure('snapshots', lambda r: c.eq(r.new(o, 0), 2)); c.ensure('first pressure', lambda r: c.eq(r.new(o, 3), p0))
    c.ensure('converged: the first update', lambda r: c.implies(c.lt(c.abs(d1), tol), c.eq(r.new(o, 6), p1)))
    c.ensure('not converged: the second update', lambda r: c.implies(c.ge(c.abs(d1), tol), c.eq(r.new(o, 6), p1 - step(p1))))

# ---- compiled code only: the Newton iteration run to its tolerance
@contract(P, 'pressure balances gas production at every snapshot', T, tests=60)
def _(c):
    c.native_only('Newton iteration runs until its tolerance: no closed form')
    v = inputs(c); n = c.int('n', 1, 6); al = c.pick('alpha', lambda g: g.choice([0.25, 0.38, 0.5, 0.75])); dt = 0.25
    o = c.vec('o', 3 * n + 1)
    c.call('h_rocket', v['L'], v['R'], v['b'], v['rho'], al, dt, v['pr'], dt * n - 0.125, v['dia'], c.pick('tol', lambda g: g.choice([1e-6, 1e-4, 1e-2, 0.1])), v['amb'], v['cs'], 1000, c.int('again', 0, 1), o); c.modifies(o)
    c.ensure('snapshots', lambda r: r.new(o, 0) == n)
    c.ensure('first snapshot', lambda r: r.new(o, 1) == 0 and r.new(o, 2) == 0 and r.new(o, 3) == v['pr'])
    def bal(r):
        A = math.pi * v['dia'] ** 2 / 4; R = v['R']; p = v['pr']
        for k in range(n - 1):
            m = v['b'] * v['rho'] * 2 * math.pi * R * v['L']; p = r.new(o, 3 + 3 * (k + 1)); f = r.new(o, 2 + 3 * (k + 1))
            x, y = m * (p / v['pr']) ** al, A * p / v['cs']
            if abs(x - y) > 1e-6 * (abs(x) + abs(y)): return False
            if abs(f - 269 * 9.8 * A * (p - v['amb']) / v['cs']) > 1e-6 * (1 + abs(f)): return False
            if abs(r.new(o, 1 + 3 * (k + 1)) - (k + 1) * dt) > 1e-9: return False
            R = R + (p / v['pr']) ** al * v['b'] * dt
        return True
    c.ensure('gas produced equals gas through the throat, thrust follows', bal)
