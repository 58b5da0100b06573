from contract import contract
from p21 import mesh
P, T = 'P23', 'p23.cpp'
def det(M):
    if len(M) == 1: return M[0][0]
    if len(M) == 2: return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0])
def jac(X, D): return det([[X(d, a) - X(D, a) for d in range(D)] for a in range(D)])
def laws(c, D, n, X, g):
    dl = lambda a, b: c.num(1 if a == b else 0)
    for a in range(D):
        c.ensure_all('gradients sum to zero, direction %d' % a, [n], lambda r, i, a=a: c.eq(sum((r.new(g, i, k, a) for k in range(1, D + 1)), r.new(g, i, 0, a)), c.num(0)))
        for b in range(D): c.ensure_all('the gradient of coordinate %d along %d' % (b, a), [n], lambda r, i, a=a, b=b: c.eq(sum((r.new(g, i, k, a) * X(i, k, b) for k in range(1, D + 1)), r.new(g, i, 0, a) * X(i, 0, b)), dl(a, b)))
FACT = {1: 1, 2: 2, 3: 6}
for D in (1, 2, 3):
    @contract(P, 'gradients and volume of a workset, %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 0, (0, 1, 2)); x = c.view('x', [n, D + 1, D]); g = c.view('g', [n, D + 1, D]); v = c.vec('v', n); J = lambda i: jac(lambda k, a: x(i, k, a), D)
        c.requires_all([n], lambda i: c.ne(J(i), c.num(0))); c.call('h_gw%d' % D, x, g, v); c.modifies(g, v); laws(c, D, n, x, g)
        c.ensure_all('volume is the size of the Jacobian determinant', [n], lambda r, i: c.eq(r.new(v, i), c.abs(J(i))))
    @contract(P, 'cell volume of a workset, %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 0, (0, 1, 2)); x = c.view('x', [n, D + 1, D]); v = c.vec('v', n); c.call('h_cv%d' % D, x, v); c.modifies(v)
        c.ensure_all('volume is the size of the Jacobian determinant', [n], lambda r, i: c.eq(r.new(v, i), c.abs(jac(lambda k, a: x(i, k, a), D))))
    @contract(P, 'Jacobian determinant of a mesh cell, %dD' % D, T)
    def _(c, D=D):
        ne, nv, conn, x = mesh(c, D, (1, 2)); v = c.vec('v', ne); c.call('h_jd%d' % D, ne, nv, conn, x, v); c.modifies(v)
        c.ensure_all('determinant of the edge vectors', [ne], lambda r, i: c.eq(r.new(v, i), jac(lambda k, a: x(conn(i * (D + 1) + k) * D + a), D)))
    @contract(P, 'gradients and volume of a mesh cell, %dD' % D, T)
    def _(c, D=D):
        ne, nv, conn, x = mesh(c, D, (1, 2)); X = lambda i, k, a: x(conn(i * (D + 1) + k) * D + a); g = c.view('g', [ne, D + 1, D]); v = c.vec('v', ne); J = lambda i: jac(lambda k, a: X(i, k, a), D)
        c.requires_all([ne], lambda i: c.ne(J(i), c.num(0))); c.call('h_cg%d' % D, ne, nv, conn, x, g, v); c.modifies(g, v); laws(c, D, ne, X, g)
        c.ensure_all('volume is the size of the Jacobian determinant', [ne], lambda r, i: c.eq(r.new(v, i), c.abs(J(i))))
    if D > 1:
      @contract(P, 'true volume of a mesh cell, %dD' % D, T)
      def _(c, D=D):
        ne, nv, conn, x = mesh(c, D, (1, 2)); v = c.vec('v', ne); c.call('h_vo%d' % D, ne, nv, conn, x, v); c.modifies(v)
        c.ensure_all('determinant over the factorial of the dimension', [ne], lambda r, i: c.eq(r.new(v, i) * FACT[D], c.abs(jac(lambda k, a: x(conn(i * (D + 1) + k) * D + a), D))))
for F in ((0, 1, 2), (0, 1, 3), (1, 2, 3), (3, 2, 0)):
  @contract(P, 'area of face %d %d %d of a cell, 3D' % F, T)
  def _(c, f=F):
    n = c.size('n', 0, (0, 1, 2)); x = c.view('x', [n, 4, 3]); v = c.vec('v', n); c.call('h_sa3', x, f[0], f[1], f[2], v); c.modifies(v)
    def cr(i):
        e = lambda k, a: x(i, f[k], a) - x(i, f[0], a)
        return [e(1, (a + 1) % 3) * e(2, (a + 2) % 3) - e(1, (a + 2) % 3) * e(2, (a + 1) % 3) for a in range(3)]
    c.ensure_all('four times the squared area is the squared cross product of two edges', [n], lambda r, i: c.eq(4 * r.new(v, i) * r.new(v, i), sum(t * t for t in cr(i))))
    c.ensure_all('not negative', [n], lambda r, i: c.ge(r.new(v, i), c.num(0)))
VO = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]}
for D in (1, 2, 3):
    @contract(P, 'strain matrix from gradients, %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 0, (0, 1, 2)); V = VO[D]; g = c.view('g', [n, D + 1, D]); o = c.view('o', [n, D * (D + 1), len(V)]); c.call('h_gm%d' % D, g, o); c.modifies(o)
        for k in range(D + 1):
            for d in range(D):
                for t, (p, q) in enumerate(V):
                    c.ensure_all('node %d direction %d, term %d' % (k, d, t), [n], lambda r, i, k=k, d=d, t=t, p=p, q=q: c.eq(r.new(o, i, k * D + d, t), (g(i, k, p) if p == d else c.num(0)) if p == q else g(i, k, q) if p == d else g(i, k, p) if q == d else c.num(0)))
    @contract(P, 'reference points mapped into a cell, %dD' % D, T)
    def _(c, D=D):
        from p21 import dom
        ne, nv, conn, x = mesh(c, D, (1, 2)); nc, cells = dom(c, ne); np_ = c.size('np', 0, (1, 2)); p = c.view('p', [np_, D]); o = c.view('o', [nc, np_, D]); c.call('h_mp%d' % D, ne, nv, conn, x, cells, p, o); c.modifies(o)
        X = lambda i, k, a: x(conn(cells(i) * (D + 1) + k) * D + a)
        for a in range(D): c.ensure_all('barycentric combination of the nodes, coordinate %d' % a, [nc, np_], lambda r, i, t, a=a: c.eq(r.new(o, i, t, a), sum((p(t, k) * (X(i, k, a) - X(i, D, a)) for k in range(D)), X(i, D, a))))
