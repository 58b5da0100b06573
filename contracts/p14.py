"""Custom material expressions: the value of a parsed expression is the value of the formula it spells.

The specification is the grammar below (a recursive-descent reading of the text), independent of how the code builds its tree:
sum of terms, left to right; terms of factors, left to right, ')(' multiplies; ^ groups to the right; a sign binds tighter than ^; ! tighter than a sign;
functions take one parenthesised argument, pow takes two; |..| is the absolute value; division by zero gives zero."""
import math, re
from fractions import Fraction
from contract import contract, Reject
P, T = 'P14', 'p14.cpp'
FN = {'exp', 'log', 'sqrt', 'abs', 'sin', 'cos', 'tan'}
TOK = re.compile(r'\s*(\d[\d.]*(?:e[-+]?\d+)?|[A-Za-z_][A-Za-z_0-9]*|.)', re.S)

class Read:
    def __init__(self, c, text, env):
        self.c = c; self.env = env; self.t = [m for m in TOK.findall(text.rstrip())]; self.i = 0
    def at(self): return self.t[self.i] if self.i < len(self.t) else None
    def eat(self, x=None):
        y = self.at(); self.i += 1
        if y is None or (x is not None and y != x): raise SyntaxError((x, y))
        return y
    def all(self):
        v = self.sum()
        if self.at() is not None: raise SyntaxError(self.at())
        return v
    def sum(self):
        v = self.term()
        while self.at() in ('+', '-'):
            o = self.eat(); w = self.term(); v = v + w if o == '+' else v - w
        return v
    def div(self, a, b):
        if self.c.native: return 0.0 if b == 0 else a / b
        return self.c.If(self.c.eq(b, 0), self.c.num(0), a / b)
    def term(self):
        v = self.power()
        while self.at() in ('*', '/') or (self.at() == '(' and self.t[self.i - 1] == ')'):
            o = self.at()
            if o != '(': self.eat()
            w = self.power(); v = self.div(v, w) if o == '/' else v * w
        return v
    def power(self):
        v = self.signed()
        if self.at() == '^': self.eat(); v = self.c.pow(v, self.power())
        return v
    def signed(self):
        if self.at() in ('+', '-'):
            o = self.eat(); v = self.post(); return v if o == '+' else -v
        return self.post()
    def post(self):
        v = self.prim()
        while self.at() == '!': self.eat(); v = self.fact(v)
        return v
    def fact(self, v):
        n = int(v); r = 1
        for i in range(1, n + 1): r *= i
        return self.c.num(r)
    def prim(self):
        x = self.eat(); c = self.c
        if x == '(': v = self.sum(); self.eat(')'); return v
        if x == '|': v = self.sum(); self.eat('|'); return c.abs(v)
        if x == 'pow':
            self.eat('('); a = self.sum(); self.eat(','); b = self.sum(); self.eat(')'); return c.pow(a, b)
        if x in FN:
            self.eat('('); v = self.sum(); self.eat(')')
            return c.abs(v) if x == 'abs' else c.sqrt(v) if x == 'sqrt' else c.fn(x, v)
        if x == 'PI': return c.num(Fraction(repr(math.pi)))
        if x[0].isdigit(): return c.num(Fraction(repr(float(x))))
        if x in self.env: return self.env[x]
        raise SyntaxError(x)

def call(c, s, real=None):
    x = c.real('x'); y = c.real('y'); z = c.real('z'); w = c.real('w')
    c.call('h_expr', c.text(s), x, y, z, w, ret='real')
    return {'x': x, 'y': y, 'z': z, 'w_1': w}

def sentences(name, ss):
    """one contract per sentence: the equality holds for every value of the variables"""
    for s in ss:
        def mk(s):
            @contract(P, '%s: %s' % (name, s.replace('\t', ' ').replace('\n', ' ')), T, tests=8)
            def _(c):
                env = call(c, s)
                c.ensure('value', lambda r: c.eq(r.value, Read(c, s, env).all()))
        mk(s)

O = '+-*/^'
sentences('two operators', ['x%sy%sz' % (a, b) for a in O for b in O])
sentences('grouping', ['x%s(y%sz)' % (a, b) for a in O for b in O] + ['(x%sy)%sz' % (a, b) for a in O for b in O])
sentences('sign', ['-x', '+x'] + ['x%s-y' % o for o in O] + ['-x%sy' % o for o in O] + ['x%s+y*z' % o for o in O] + ['-(x+y)', '(-x)', '(-x+y)*-z', '-(-x)', 'x*-y^2', '2^-x^2'])
sentences('function', [f + '(x)' for f in sorted(FN)] + ['x*sin(y)+z', '-cos(x)^2', 'exp(x+y)*z', 'log(x*y)-z', 'sqrt(x)^2', 'sin(cos(tan(x)))', 'abs(x-y)/z', 'x^exp(y)', 'abs(-x)'])
sentences('bars', ['|x|', '|x-y|', '-|x|', '2*|x|', '|x|*y', '|x|^2', 'x+|y-z|*w_1', '|x|+|y|', '|(|x-y|)-z|', '(|x|)(y)', '|x+(y-z)|', 'sin(|x|)', '|sin(x)|'])
sentences('pow', ['pow(x,y)', 'pow(x,2)', 'pow(x,y)*z', 'z-pow(x,y)', 'pow(x+y,z)', 'pow(x,y+z)', 'pow(x*y,z)', 'pow(x,y*z)', 'pow(x-y,z-w_1)', 'pow(pow(x,2),3)', 'pow(x,pow(y,2))', 'pow(-x,2)', 'pow(x,-y)', 'pow((x+y),(z))',
                  'pow(x^y,z)', 'pow(x,y^z)', 'pow(|x-y|,2)', 'pow(sin(x),2)+pow(cos(x),2)', '2*pow(x+y,2)/z', '-pow(x,2)', 'pow(x,2)^y', '|pow(x,3)|', 'pow(x,y)-z+w_1'])
sentences('implied product', ['(x)(y)', '(x+y)(z)', '(x)(y)(z)', 'x/(y)(z)', '(x)(y)+z', 'x^(y)(z)', '(x+1)(x-1)', 'sin(x)(y)', 'x/((1.0+y)(1.0-2.0*y))'])
sentences('number', ['0', '7', '12', '0.5', '2.25', '1e3', '2.5e+2', '125e-2', '1.', '1024*x', 'PI', 'PI*x', '2*PI', 'x*1e2', '3.0-2.5'])
sentences('names and blanks', ['w_1', 'w_1*x', ' x + y ', 'x\t*\ty', 'x\n-y', ' pow ( x , y ) ', ' sin ( x )', 'x+w_1/w_1'])
sentences('factorial', ['%d!' % n for n in (0, 1, 2, 3, 5, 10, 20)] + ['3!!', '-3!', '2*4!', '2^3!', 'x+4!*y', '(1+2)!', '2.75!'])
sentences('longer', ['x+y*z^2-w_1/2', '((x))', '(((x+y)*z)-w_1)', 'x-y-z-w_1', 'x/y/z', 'x^2^3', 'x*y+z*w_1', '-x+-y*-z', 'x*(y+z*(w_1-x))', '(x+y)*(z-w_1)/(1+x*x)', 'x-(y-(z-w_1))', 'pow(x+1,2)(y)', '|x-1|/|y-1|'])

# names that only begin like a function or constant are variables
ALIAS = ['expo', 'sinus', 'cost', 'tan_d', 'log1', 'sqr', 'sqrtx', 'absorb', 'power', 'PIN', 'E', 'e_1', '_a']
for nm in ALIAS:
    def mk(nm):
        @contract(P, 'variable named ' + nm, T, tests=8)
        def _(c):
            x = c.real('x'); y = c.real('y')
            c.call('h_named', c.text(nm + '*2+y'), c.text(nm), x, y, ret='real')
            c.ensure('value', lambda r: c.eq(r.value, x * 2 + y))
    mk(nm)

BAD = ['', ' ', '()', ')(', '(x', 'x)', '((x)', '|x', 'x|', '(|x)|', '|(x|)', 'x y', '2x', 'x 2', '2(x)', 'x(y)', '(x)y', 'x+', '*x', 'x*', '/', 'x**y', 'x+*y', 'x---y', '+', '-', 'x^', '^x', '!x', 'sin', 'sin x', 'sin()', 'x,y', 'pow', 'pow(x)', 'pow(x,y,z)',
       'pow(,x)', 'pow(x,)', 'x$y', '.5', '#', 'x!y', '3!(x)', '|x|y', 'PI x', 'sin(x)cos(y)', 'unknown', 'x+unknown']
for s in BAD:
    def mk(s):
        @contract(P, 'rejected: %r' % s, T, tests=2)
        def _(c):
            call(c, s); c.throws_iff(True)
    mk(s)

# ---- CustomMaterial: where the equation comes from
@contract(P, 'equation by name', T)
def _(c):
    x = c.real('x'); y = c.real('y'); z = c.real('z'); w = c.real('w')
    c.call('h_custom', c.text('x*y-z'), c.text('My Equation'), c.text('My Equation'), x, y, z, w, ret='real')
    c.ensure('value', lambda r: c.eq(r.value, x * y - z))
@contract(P, 'equation under the default name', T)
def _(c):
    x = c.real('x'); y = c.real('y'); z = c.real('z'); w = c.real('w')
    c.call('h_custom', c.text('(x+w_1)/y'), c.text('Equation'), c.text(''), x, y, z, w, ret='real'); c.requires(c.ne(y, 0))
    c.ensure('value', lambda r: c.eq(r.value * y, x + w))
@contract(P, 'no equation', T)
def _(c):
    x = c.real('x'); y = c.real('y'); z = c.real('z'); w = c.real('w')
    c.call('h_custom', c.text('x'), c.text('Other'), c.text('Equation'), x, y, z, w, ret='real'); c.throws_iff(True)
@contract(P, 'evaluator reused', T)
def _(c):
    x = c.real('x'); y = c.real('y'); z = c.real('z'); w = c.real('w')
    c.call('h_twice', c.text('x+y'), c.text('z*w_1'), x, y, z, w, ret='real')
    c.ensure('second expression only', lambda r: c.eq(r.value, z * w))

# ---- compiled code only (labelled, not counted): random sentences and equations read from a file
def rnd(g, d, bar=False):
    if d == 0 or g.random() < .15: return g.choice(['x', 'y', 'z', 'w_1', '2', '0.5', 'PI', '3', '1e1', '(x)'])
    k = g.random()
    if k < .5: return rnd(g, d - 1, bar) + g.choice(['+', '-', '*', '/', '^', ' + ', '*']) + rnd(g, d - 1, bar)
    if k < .62: return '(' + rnd(g, d - 1) + ')'
    if k < .70: return '(' + g.choice('+-') + rnd(g, d - 1) + ')'
    if k < .78: return g.choice(sorted(FN)) + '(' + rnd(g, d - 1) + ')'
    if k < .88: return 'pow(' + rnd(g, d - 1) + ',' + rnd(g, d - 1) + ')'
    if k < .93: return '(' + rnd(g, d - 1) + ')(' + rnd(g, d - 1) + ')'
    return '(' + rnd(g, d - 1) + ')' if bar else '|' + rnd(g, d - 1, True) + '|'
@contract(P, 'random sentences', T, tests=400)
def _(c):
    c.native_only('the expression text is not symbolic: sentences of bounded depth are replayed')
    s = c.pick('text', lambda g: rnd(g, g.randint(1, 4)))
    env = call(c, s)
    def ok(r):
        v = Read(c, s, env).all()
        return c.eq(r.value, v) if math.isfinite(v) and abs(v) < 1e100 else True
    c.ensure('value', ok)
@contract(P, 'equation read from a file', T, tests=60)
def _(c):
    c.native_only('reads a file')
    n = c.int('lines', 1, 4); k = c.int('index', -1, 4)
    eqs = [c.pick('eq%d' % i, lambda g: rnd(g, 1).replace(',', '+').replace('pow', 'abs')) for i in range(n)]
    x = c.real('x'); y = c.real('y'); z = c.real('z'); w = c.real('w')
    pre = c.pick('pre', lambda g: g.choice(['', 'some text\n', '\n\nmore text, with commas\n']))
    c.call('h_bingo', c.text(pre + 'FITNESS    COMPLEXITY    EQUATION\n' + ''.join('%g, %d, %s\n' % (i * .5, i, q) for i, q in enumerate(eqs))), k, x, y, z, w, ret='real')
    i = max(k, 0)
    c.throws_iff(i >= n)
    if i < n: c.ensure('value', lambda r: c.eq(r.value, Read(c, eqs[i], {'x': x, 'y': y, 'z': z, 'w_1': w}).all()))
