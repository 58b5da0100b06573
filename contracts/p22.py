from contract import contract
from p21 import mesh, dom
P, T = 'P22', 'p22.cpp'
def setup(c, D, block):
    ne, nv, conn, x = mesh(c, D, (1, 2)); args = [ne, nv, conn, x]; rows = ne; cell = lambda i: i
    if block: rows, cells = dom(c, ne); args.append(cells); cell = lambda i: cells(i)
    return ne, nv, conn, rows, cell, args
def scatter(fn, D, nd, what, block=0):
    @contract(P, 'assemble %s, %dD%s' % (what, D, ', one element block' * block), T)
    def _(c):
        ne, nv, conn, rows, cell, args = setup(c, D, block)
        n = nd * (D + 1); w = c.view('w', [rows, n]); o = c.vec('o', nv * nd); c.call(fn, *args, w, o); c.modifies(o)
        c.ensure_all('old value plus every contribution of that node and direction', [nv, nd], lambda r, v, a: c.eq(r.new(o, v * nd + a), o(v * nd + a) +
            c.sum(rows, lambda i: sum((c.If(c.eq(conn(cell(i) * (D + 1) + k), v), w(i, k * nd + a), c.num(0)) for k in range(D + 1)), c.num(0)))))
for D in (1, 2, 3):
    scatter('h_r%d' % D, D, D, 'a residual'); scatter('h_rd%d' % D, D, D, 'a residual', 1)
    scatter('h_gu%d' % D, D, D, 'a state gradient'); scatter('h_gx%d' % D, D, D, 'a shape gradient'); scatter('h_gz%d' % D, D, 1, 'a control gradient')
    scatter('h_guf%d' % D, D, D, 'a state gradient from derivatives'); scatter('h_gxf%d' % D, D, D, 'a shape gradient from derivatives'); scatter('h_gzf%d' % D, D, 1, 'a control gradient from derivatives')
    scatter('h_gufd%d' % D, D, D, 'a state gradient from derivatives', 1); scatter('h_gzfd%d' % D, D, 1, 'a control gradient from derivatives', 1)
@contract(P, 'criterion value is the sum over cells', T)
def _(c):
    n = c.size('n', 0, (0, 1, 4)); v = c.vec('v', n); c.call('h_sum', n, v, ret='real'); c.ensure('sum', lambda r: c.eq(r.value, c.sum(n, lambda i: v(i))))
@contract(P, 'criterion value is the sum over cells of the values, not of derivatives', T)
def _(c):
    n = c.size('n', 0, (0, 1, 4)); v = c.vec('v', n); d = c.view('d', [n, 3]); c.call('h_val', n, v, d, ret='real'); c.ensure('sum', lambda r: c.eq(r.value, c.sum(n, lambda i: v(i))))
def distinct(c, nc, cells): c.requires_all([nc, nc], lambda i, j: c.implies(c.ne(i, j), c.ne(cells(i), cells(j))))
@contract(P, 'flatten a cell workset', T)
def _(c):
    n = c.size('n', 0, (0, 1, 3)); w = c.view('w', [n, 4]); o = c.vec('o', n * 4); c.call('h_flat', n, w, o); c.modifies(o); c.throws_iff(c.le(n, 0))
    c.ensure_all('row-major copy', [n, 4], lambda r, i, k: c.eq(r.new(o, i * 4 + k), w(i, k)))
@contract(P, 'flatten a cell workset, one element block', T)
def _(c):
    ne, nv, conn, x = mesh(c, 2, (1, 3)); nc, cells = dom(c, ne); distinct(c, nc, cells); w = c.view('w', [nc, 4]); o = c.vec('o', ne * 4); c.call('h_flatd', ne, nv, conn, x, cells, w, o); c.modifies(o); c.throws_iff(c.le(nc, 0))
    c.ensure_all('copied to the cell it belongs to', [nc, 4], lambda r, i, k: c.eq(r.new(o, cells(i) * 4 + k), w(i, k)))
@contract(P, 'place block rows at their cells', T)
def _(c):
    ne, nv, conn, x = mesh(c, 2, (1, 3)); nc, cells = dom(c, ne); distinct(c, nc, cells); w = c.view('w', [nc, 4]); o = c.view('o', [ne, 4]); c.call('h_avw', ne, nv, conn, x, cells, w, o); c.modifies(o); c.throws_iff(c.le(nc, 0))
    c.ensure_all('copied to the cell it belongs to', [nc, 4], lambda r, i, k: c.eq(r.new(o, cells(i), k), w(i, k)))
@contract(P, 'derivatives of a scalar workset become a table', T)
def _(c):
    n = c.size('n', 0, (0, 1, 3)); d = c.view('d', [n, 3]); o = c.view('o', [n, 3]); c.call('h_pod2', d, o); c.modifies(o)
    c.ensure_all('the partial of that cell and variable', [n, 3], lambda r, i, k: c.eq(r.new(o, i, k), d(i, k)))
@contract(P, 'derivatives of a scalar workset become a table, one element block', T)
def _(c):
    ne, nv, conn, x = mesh(c, 2, (1, 3)); nc, cells = dom(c, ne); distinct(c, nc, cells); d = c.view('d', [nc, 3]); o = c.view('o', [ne, 3]); c.call('h_pod2d', ne, nv, conn, x, cells, d, o); c.modifies(o)
    c.ensure_all('the partial of that cell and variable', [nc, 3], lambda r, i, k: c.eq(r.new(o, cells(i), k), d(i, k)))
@contract(P, 'derivatives of a vector workset become a table', T)
def _(c):
    n = c.size('n', 0, (0, 1, 3)); d = c.view('d', [n, 2, 3]); o = c.view('o', [n, 2, 3]);
    c.call('h_pod3', n, d, o); c.modifies(o); c.throws_iff(c.le(n, 0))
    c.ensure_all('the partial of that cell, row and variable', [n, 2, 3], lambda r, i, k, j: c.eq(r.new(o, i, k, j), d(i, k, j)))
@contract(P, 'derivatives of a vector workset become a table, one element block', T)
def _(c):
    ne, nv, conn, x = mesh(c, 2, (1, 3)); nc, cells = dom(c, ne); distinct(c, nc, cells); d = c.view('d', [nc, 2, 3]); o = c.view('o', [ne, 2, 3]);
    c.call('h_pod3d', ne, nv, conn, x, cells, d, o); c.modifies(o); c.throws_iff(c.le(nc, 0))
    c.ensure_all('the partial of that cell, row and variable', [nc, 2, 3], lambda r, i, k, j: c.eq(r.new(o, cells(i), k, j), d(i, k, j)))
def jac(fn, what, block=0, tr=0, plain=0):
    @contract(P, 'assemble %s%s' % (what, ', one element block' * block), T)
    def _(c):
        R, C = 2, 3
        if plain: ne = c.size('ne', 0, (1, 2)); args = [ne]; rows = ne; cell = lambda i: i
        else: ne, nv, conn, rows, cell, args = setup(c, 2, block)
        nz = c.size('nz', 1, (1, 4, 9)); tab = c.iview('tab', [ne * R * C], 0, nz); w = c.view('w', [rows, R, C]); o = c.vec('o', nz)
        c.call(fn, *args, tab, w, o); c.modifies(o)
        at = (lambda i, k, j: tab(cell(i) * 6 + j * R + k)) if tr else (lambda i, k, j: tab(cell(i) * 6 + k * C + j))
        c.ensure_all('old entry plus every contribution looked up to it', [nz], lambda r, e: c.eq(r.new(o, e), o(e) + c.sum(rows, lambda i: sum((c.If(c.eq(at(i, k, j), e), w(i, k, j), c.num(0)) for k in range(R) for j in range(C)), c.num(0)))))
jac('h_jac', 'a Jacobian table'); jac('h_jact', 'a transposed Jacobian table', 0, 1, 1); jac('h_jacf', 'a Jacobian from derivatives'); jac('h_jacfd', 'a Jacobian from derivatives', 1)
jac('h_jactf', 'a transposed Jacobian from derivatives', 0, 1); jac('h_jactfd', 'a transposed Jacobian from derivatives', 1, 1)

def look(fn, D, I, J, kind):
    @contract(P, 'entry lookup: %s, %dD, %d by %d per node' % (('block', 'transposed block', 'point')[kind], D, I, J), T)
    def _(c):
        ne, nv, conn, x = mesh(c, D, (1, 2)); nr = nv * I if kind == 2 else nv
        nz = c.size('nz', 1, (1, 4, 9)); rm = c.iview('rm', [nr + 1], 0, nz + 1, gen=lambda g, d: [0] + sorted(g.randint(0, nz) for _ in range(d[0] - 2)) + [nz]); ci = c.iview('ci', [nz], 0, nr); c.requires(c.eq(rm(0), 0)); c.requires(c.eq(rm(nr), nz)); c.requires_all([nr], lambda i: c.le(rm(i), rm(i + 1)))
        e = c.int('e', 0, ne - 1); k = c.int('k', 0, I * (D + 1) - 1); l = c.int('l', 0, J * (D + 1) - 1)
        c.call(fn, ne, nv, conn, x, rm, ci, e, k, l, ret='int')
        ni, nj = conn(e * (D + 1) + c.div(k, I)), conn(e * (D + 1) + c.div(l, J)); a, b = c.mod(k, I), c.mod(l, J)
        if kind == 1: ni, nj, a, b = nj, ni, b, a
        if kind == 2: ni, nj = ni * I + a, nj * I + b
        B = 1 if kind == 2 else I * J
        c.ensure('absent, or an entry of that row and column', lambda r: c.Or(c.eq(r.value, -1), c.And(c.le(rm(ni) * B, r.value), c.lt(r.value, rm(ni + 1) * B), c.eq(ci(c.div(r.value, B)), nj), c.eq(c.mod(r.value, B), 0 if kind == 2 else a * J + b))))
        c.ensure_all('found when present', [nz], lambda r, t: c.Or(c.ne(r.value, -1), c.lt(t, rm(ni)), c.ge(t, rm(ni + 1)), c.ne(ci(t), nj)))
for D, I, J in ((1, 1, 1), (2, 2, 2), (3, 3, 3), (2, 3, 1), (3, 4, 3)): look('h_lk%d%d%d' % (D, I, J), D, I, J, 0)
look('h_lt22', 2, 2, 2, 1); look('h_lt34', 3, 4, 4, 1); look('h_lm22', 2, 2, 2, 2); look('h_lm31', 3, 1, 1, 2)
