"""A compressed-sparse-row (block) matrix as a group of contract inputs."""
def csr(c, p, rows, cols, nnz, rb=1, cb=1, distinct=False):
    """rows, cols: block counts; entries are stored block by block, row-major inside a block"""
    def grow(g, d):
        if distinct:
            per = [0] * (d[0] - 1)
            for _ in range(nnz): 
                ok = [i for i in range(len(per)) if per[i] < cols]
                if not ok: break
                per[g.choice(ok)] += 1
            out = [0]
            for x in per: out.append(out[-1] + x)
            if out[-1] != nnz:
                from contract import Reject
                raise Reject()
            return out
        return [0] + sorted(g.randint(0, nnz) for _ in range(d[0] - 2)) + [nnz] if d[0] > 1 else [0]
    R = c.iview(p + 'row', [rows + 1], 0, nnz + 1, gen=grow)
    def gcol(g, d):
        if not distinct: return [g.randrange(cols) for _ in range(d[0])]
        out = []
        for i in range(rows):
            l = list(range(cols)); g.shuffle(l); out += l[:R(i + 1) - R(i)]
        return out + [0] * (d[0] - len(out))
    C = c.iview(p + 'col', [nnz], 0, cols, gen=gcol)
    E = c.view(p + 'ent', [nnz * (rb * cb)])
    c.requires(c.eq(R(0), 0)); c.requires(c.eq(R(rows), nnz))
    c.requires_all([rows], lambda i: c.le(R(i), R(i + 1)))
    if not c.native:
        c.requires_all([rows + 1, rows + 1], lambda i, j: c.implies(c.le(i, j), c.le(R(i), R(j))))
    if distinct and c.native:
        for i in range(rows):
            s = [C(k) for k in range(R(i), R(i + 1))]
            if len(set(s)) != len(s):
                from contract import Reject
                raise Reject()
    return R, C, E
def length(R, i): return R(i + 1) - R(i)

def dense(A, rows, cols, rb, cb):
    R, C, E = A; d = {}
    for i in range(rows):
        for k in range(R(i), R(i + 1)):
            for p in range(rb):
                for q in range(cb): d[i * rb + p, C(k) * cb + q] = d.get((i * rb + p, C(k) * cb + q), 0.0) + E(k * rb * cb + p * cb + q)
    return d
def dense_new(r, R, C, E, rows, cols, rb, cb):
    d = {}
    assert r.ext(R, 0) == rows + 1, 'row map'
    for i in range(rows):
        for k in range(r.new(R, i), r.new(R, i + 1)):
            j = r.new(C, k)
            for p in range(rb):
                for q in range(cb):
                    x = (i * rb + p, j * cb + q)
                    d[x] = d.get(x, 0.0) + r.new(E, k * rb * cb + p * cb + q)
    return d
