"""Term helpers: concrete Python numbers where possible, z3 terms otherwise. Doubles are mathematical reals."""
import z3
from fractions import Fraction

z3.set_param('model.compact', True)

class EngineLimit(Exception):
    """The engine cannot decide this construct (never reported as a violation)."""

class Poison:
    """A value that merged control flow could not represent; using it is an engine limit."""
    def __init__(self, why=''): self.why = why
    def __repr__(self): return 'Poison(%s)' % self.why

def isz(x): return isinstance(x, z3.ExprRef)
def isbool(x): return isinstance(x, bool) or isinstance(x, z3.BoolRef)
def isreal(x): return isinstance(x, Fraction) or (isinstance(x, z3.ArithRef) and x.is_real())
def isint(x): return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, z3.ArithRef) and x.is_int())

SPECIAL = {}
def special(name):
    """inf, -inf, nan constants: opaque reals (never equal to an ordinary input by assumption)."""
    if name not in SPECIAL: SPECIAL[name] = z3.Real('fp!' + name)
    return SPECIAL[name]

def zr(x):
    if isinstance(x, bool): raise EngineLimit('bool as real')
    if isinstance(x, Fraction): return z3.RealVal(x)
    if isinstance(x, int): return z3.RealVal(x)
    if isinstance(x, float): return z3.RealVal(Fraction(x))
    if isinstance(x, z3.ArithRef): return x if x.is_real() else z3.ToReal(x)
    raise EngineLimit('real: %r' % (x,))
def zi(x):
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, z3.ArithRef) and x.is_int(): return x
    if isinstance(x, z3.BoolRef): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    raise EngineLimit('int: %r' % (x,))
def zb(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef): return x
    if isinstance(x, int): return z3.BoolVal(x != 0)
    if isinstance(x, z3.ArithRef): return x != 0
    raise EngineLimit('bool: %r' % (x,))
def z(x):
    if isz(x): return x
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, (Fraction, float)): return zr(x)
    raise EngineLimit('term: %r' % (x,))

def back(e):
    """z3 numeral -> Python"""
    if isinstance(e, z3.IntNumRef): return e.as_long()
    if isinstance(e, z3.RatNumRef): return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e

def simp(e):
    if not isz(e): return e
    return back(z3.simplify(e))

# ---- reals
def radd(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction): return a + b
    if isinstance(a, Fraction) and a == 0: return b
    if isinstance(b, Fraction) and b == 0: return a
    return zr(a) + zr(b)
def rsub(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction): return a - b
    if isinstance(b, Fraction) and b == 0: return a
    if isz(a) and isz(b) and a.eq(b): return Fraction(0)
    return zr(a) - zr(b)
def rmul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction): return a * b
    if isinstance(a, Fraction):
        if a == 0: return Fraction(0)
        if a == 1: return b
    if isinstance(b, Fraction):
        if b == 0: return Fraction(0)
        if b == 1: return a
    return zr(a) * zr(b)
def rdiv(a, b):
    if isinstance(b, Fraction):
        if b == 0: raise EngineLimit('division by constant zero')
        if isinstance(a, Fraction): return a / b
        if b == 1: return a
        return zr(a) * zr(Fraction(1) / b)
    if isinstance(a, Fraction) and a == 0: return Fraction(0)   # 0/x: x = 0 is outside the real-number model
    return zr(a) / zr(b)
def rneg(a):
    if isinstance(a, Fraction): return -a
    return -zr(a)

def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    return simp(zi(a) + zi(b))
def isub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int) and b == 0: return a
    return simp(zi(a) - zi(b))
def imul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(a, int):
        if a == 0: return 0
        if a == 1: return b
    if isinstance(b, int):
        if b == 0: return 0
        if b == 1: return a
    return simp(zi(a) * zi(b))

def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    if isinstance(a, Poison) or isinstance(b, Poison): return Poison('ite')
    if isz(a) and isz(b) and a.eq(b): return a
    if not isz(a) and not isz(b):
        try:
            if type(a) == type(b) and a == b: return a
        except Exception: pass
    if isbool(a) or isbool(b):
        if not (isbool(a) and isbool(b)):
            return z3.If(c, zi(a), zi(b))
        return z3.If(c, zb(a), zb(b))
    if isint(a) and isint(b): return z3.If(c, zi(a), zi(b))
    if isreal(a) and isreal(b): return z3.If(c, zr(a), zr(b))
    return None

def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
        else: out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)
def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
        else: out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)
def b_not(x):
    if isinstance(x, bool): return not x
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)

def eq(a, b):
    if not isz(a) and not isz(b):
        return a == b
    if isz(a) and isz(b) and a.eq(b): return True
    if isreal(a) or isreal(b):
        return simp(zr(a) == zr(b))
    if isbool(a) and isbool(b): return simp(zb(a) == zb(b))
    return simp(zi(a) == zi(b))

def subst(e, pairs):
    if not isz(e): return e
    return back(z3.substitute(e, [(a, z(b)) for a, b in pairs]))

def consts_of(*es):
    """free 0-ary uninterpreted constants (and all uninterpreted applications) of the terms"""
    seen = set(); out = {}; apps = []
    st = [e for e in es if isz(e)]
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(e):
            st.append(e.body()); continue
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                if e.num_args() == 0: out[e.decl().name()] = e
                else: apps.append(e)
            st.extend(e.children())
    return out, apps

def occurs(x, e):
    if not isz(e): return False
    if not isz(x): return False
    seen = set(); st = [e]; k = x.get_id()
    while st:
        t = st.pop()
        i = t.get_id()
        if i == k: return True
        if i in seen: continue
        seen.add(i)
        st.extend(t.children())
    return False

# ---- uninterpreted mathematical functions
R = z3.RealSort()
UF = {}
def uf(name, *args):
    k = (name, len(args))
    if k not in UF:
        UF[k] = z3.Function('fn_' + name, *([R] * (len(args) + 1)))
    return UF[k](*[zr(a) for a in args])
ISFIN = z3.Function('isfinite', R, z3.BoolSort())

def const_fold(name, *a):
    """a library function of constants is the double the library (correctly rounded) returns"""
    import math
    from ir import fp_const
    try: r = fp_const(getattr(math, name)(*[float(x) for x in a]))
    except (ValueError, OverflowError, AttributeError): return None
    return r if isinstance(r, Fraction) else None
def f_sqrt(x):
    if isinstance(x, Fraction):
        from math import isqrt
        if x >= 0:
            n, d = isqrt(x.numerator), isqrt(x.denominator)
            if n*n == x.numerator and d*d == x.denominator: return Fraction(n, d)
            return const_fold('sqrt', x)
    return uf('sqrt', simp(x))
def f_abs(x):
    if isinstance(x, Fraction): return abs(x)
    return z3.If(zr(x) >= 0, zr(x), -zr(x))
def f_pow(x, p):
    if isinstance(p, z3.ArithRef): p = simp(p)
    if isint(p) and isinstance(p, int): p = Fraction(p)
    if isinstance(p, Fraction):
        if p == 0: return Fraction(1)
        if p.denominator == 1 and 1 <= p <= 12:
            r = x
            for _ in range(int(p) - 1): r = rmul(r, x)
            return r
        if p.denominator == 1 and -4 <= p <= -1:
            return rdiv(Fraction(1), f_pow(x, -p))
        if p == Fraction(1, 2): return f_sqrt(x)
    if isinstance(x, Fraction) and x == 1: return Fraction(1)
    if isinstance(x, Fraction) and isinstance(p, Fraction) and x > 0:
        r = const_fold('pow', x, p)
        if r is not None: return r
    return uf('pow', simp(x), p)
def f_uf(name):
    def f(x):
        if isinstance(x, Fraction) and x == 0:
            z0 = {'exp': 1, 'tanh': 0, 'sin': 0, 'cos': 1, 'tan': 0, 'atan': 0, 'sinh': 0, 'cosh': 1}
            if name in z0: return Fraction(z0[name])
        if isinstance(x, Fraction):
            r = const_fold(name, x)
            if r is not None: return r
        return uf(name, simp(x))
    return f

def math_axioms(terms):
    """Ground instances of the axioms of sqrt/pow/exp/tanh/... for the applications that occur in the terms."""
    ax = []
    done = set()
    _, apps = consts_of(*terms)
    work = list(apps)
    pows = []; monos = {}
    while work:
        a = work.pop()
        if a.get_id() in done: continue
        done.add(a.get_id())
        n = a.decl().name()
        if n == 'fn_sqrt':
            x = a.arg(0)
            ax.append(z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)))
            ax.append(z3.Implies(x > 0, a > 0))
        elif n == 'fn_exp':
            ax += [a > 0, z3.Implies(a.arg(0) == 0, a == 1), z3.Implies(a.arg(0) > 0, a > 1), z3.Implies(a.arg(0) < 0, a < 1)]
            monos.setdefault(n, []).append(a)
        elif n == 'fn_tanh':
            x = a.arg(0)
            ax += [a > -1, a < 1, z3.Implies(x == 0, a == 0), z3.Implies(x > 0, a > 0), z3.Implies(x < 0, a < 0)]
            monos.setdefault(n, []).append(a)
        elif n in ('fn_sin', 'fn_cos'):
            ax += [a >= -1, a <= 1]
        elif n == 'fn_pow':
            x, p = a.arg(0), a.arg(1)
            ax += [z3.Implies(x > 0, a > 0), z3.Implies(x == 1, a == 1), z3.Implies(z3.And(x == 0, p > 0), a == 0),
                   z3.Implies(p == 1, a == x), z3.Implies(p == 0, a == 1), z3.Implies(z3.And(x >= 0, x <= 1, p > 0), z3.And(a >= 0, a <= 1)),
                   z3.Implies(z3.And(x >= 1, p >= 0), a >= 1), z3.Implies(p == 2, a == x * x), z3.Implies(p == 3, a == x * x * x)]
            pows.append(a)
    for n, l in monos.items():
        for i in range(len(l)):
            for j in range(len(l)):
                if i != j: ax.append(z3.Implies(l[i].arg(0) < l[j].arg(0), l[i] < l[j]))
    for i in range(len(pows)):
        for j in range(len(pows)):
            if i != j:
                a, b = pows[i], pows[j]
                ax.append(z3.Implies(z3.And(a.arg(1) == b.arg(1), a.arg(1) > 0, a.arg(0) >= 0, a.arg(0) < b.arg(0)), a < b))
    return ax
