from contract import contract
P, T = 'P21', 'p21.cpp'
def mesh(c, D, sizes=(1, 2, 3)):
    ne = c.size('ne', 0, sizes); nv = c.size('nv', 1, (1, 2, 5))
    conn = c.iview('conn', [ne * (D + 1)], 0, nv); x = c.vec('x', nv * D)
    return ne, nv, conn, x
def dom(c, ne):
    nc = c.size('nc', 0, (0, 1, 2, 4)); cells = c.iview('cells', [nc], 0, ne); return nc, cells
# what is gathered: (tag, dimension, local values per node; 0 = per element, what, values per element)
G = [('m%dc' % D, D, 1, 'control, mechanics %dD' % D, 0) for D in (1, 2, 3)] + [('m%du' % D, D, D, 'state, mechanics %dD' % D, 0) for D in (1, 2, 3)] + [
    ('t3u', 3, 1, 'state, thermal 3D', 0), ('tm2u', 2, 3, 'state, thermomechanics 2D', 0), ('em2u', 2, 3, 'state, electromechanics 2D', 0),
    ('sm2u', 2, 3, 'state, stabilized mechanics 2D', 0), ('sm2n', 2, 2, 'nodal state, stabilized mechanics 2D', 0),
    ('p2c', 2, 1, 'control, plasticity 2D', 0), ('p2u', 2, 3, 'state, plasticity 2D', 0), ('p2n', 2, 2, 'nodal state, plasticity 2D', 0), ('p2l', 2, 0, 'local state, plasticity 2D', 10),
    ('p3n', 3, 3, 'nodal state, plasticity 3D', 0), ('p3l', 3, 0, 'local state, plasticity 3D', 14),
    ('tp2u', 2, 4, 'state, thermoplasticity 2D', 0), ('tp2l', 2, 0, 'local state, thermoplasticity 2D', 10)]
def gather(tag, D, nd, what, nl):
    n = nl or nd * (D + 1)
    for block in (0, 1):
        for fad in (0, 1):
            @contract(P, 'gather %s%s%s' % (what, ', one element block' * block, ', with derivatives' * fad), T)
            def _(c):
                ne, nv, conn, x = mesh(c, D, (1, 2)); args = [ne, nv, conn, x]; rows = ne; cell = lambda i: i
                if block: rows, cells = dom(c, ne); args.append(cells); cell = lambda i: cells(i)
                u = c.vec('u', ne * nl if nl else nv * nd); o = c.view('o', [rows, n]); args += [u, o]; mods = [o]
                if fad: d = c.view('d', [rows, n, n]); args.append(d); mods.append(d)
                c.call('h_' + tag + 'd' * block + 'f' * fad, *args); c.modifies(*mods)
                src = lambda i, k: u(cell(i) * nl + k) if nl else u(conn(cell(i) * (D + 1) + c.div(k, nd)) * nd + c.mod(k, nd))
                c.ensure_all('entry = the value at that node (or element) of that cell', [rows, n], lambda r, i, k: c.eq(r.new(o, i, k), src(i, k)))
                if fad: c.ensure_all('seeded as an independent variable of its own', [rows, n, n], lambda r, i, k, j: c.eq(r.new(d, i, k, j), c.If(c.eq(k, j), c.num(1), c.num(0))))
for g in G: gather(*g)
def config(D):
    n = D * (D + 1)
    for block in (0, 1):
        for fad in (0, 1):
            @contract(P, 'gather coordinates %dD%s%s' % (D, ', one element block' * block, ', with derivatives' * fad), T)
            def _(c):
                ne, nv, conn, x = mesh(c, D, (1, 2)); args = [ne, nv, conn, x]; rows = ne; cell = lambda i: i
                if block: rows, cells = dom(c, ne); args.append(cells); cell = lambda i: cells(i)
                o = c.view('o', [rows, D + 1, D]); args.append(o); mods = [o]
                if fad: d = c.view('d', [rows, n, n]); args.append(d); mods.append(d)
                c.call('h_m%dx' % D + 'd' * block + 'f' * fad, *args); c.modifies(*mods)
                c.ensure_all('entry = coordinate of that node of that cell', [rows, D + 1, D], lambda r, i, k, a: c.eq(r.new(o, i, k, a), x(conn(cell(i) * (D + 1) + k) * D + a)))
                if fad: c.ensure_all('seeded as an independent variable of its own', [rows, n, n], lambda r, i, k, j: c.eq(r.new(d, i, k, j), c.If(c.eq(k, j), c.num(1), c.num(0))))
for D in (1, 2, 3): config(D)
