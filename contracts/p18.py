"""Degree-of-freedom layouts and the automatic-differentiation types built on them."""
from contract import contract, Reject
P, T = 'P18', 'p18.cpp'
VOIGT = {1: 1, 2: 3, 3: 6}; STRESS = {1: 1, 2: 4, 3: 6}
# dofs per node, nodal states per node, local dofs per cell
PH = {'mech': ('mechanics', lambda d: (d, 0, 0)), 'em': ('electromechanics', lambda d: (d + 1, 0, 0)), 'plas': ('plasticity', lambda d: (d + 1, d, 2 + 2 * STRESS[d])), 'stab': ('stabilised mechanics', lambda d: (d + 1, d, 0)),
      'dyn': ('structural dynamics', lambda d: (2 * d, 0, 0)), 'th': ('thermal', lambda d: (1, 0, 0)), 'thplas': ('thermoplasticity', lambda d: (d + 2, d, 2 + 2 * STRESS[d])), 'tm': ('thermomechanics', lambda d: (d + 1, 0, 0)),
      'stm': ('stabilised thermomechanics', lambda d: (d + 2, d, 0)), 'proj': ('projection', lambda d: (d, 1, 0))}
KINDS = ['residual', 'jacobian', 'jacobian by previous state', 'jacobian by nodal state', 'local jacobian', 'local jacobian by previous state', 'gradient by control', 'gradient by configuration']
ACTIVE = [None, 0, 1, 4, 2, 3, 5, 6]; ARGS = ['state', 'previous state', 'local state', 'previous local state', 'nodal state', 'control', 'configuration', 'result']
for ph, (nm, f) in PH.items():
    for D in (1, 2, 3):
        def mk(ph, nm, f, D):
            @contract(P, '%s %dD' % (nm, D), T, tests=1)
            def _(c):
                o = c.iview('o', [76]); c.call('h_lay_' + ph, D, o); c.modifies(o)
                dof, ns, loc = f(D); n = D + 1
                for k, (w, v) in enumerate([('space dimensions', D), ('nodes per cell', n), ('dofs per node', dof), ('dofs per cell', dof * n), ('controls', 1), ('nodal states', ns), ('local dofs', loc),
                                            ('state derivatives', dof * n), ('local state derivatives', loc), ('control derivatives', n), ('configuration derivatives', D * n), ('nodal state derivatives', ns * n)]):
                    c.ensure(w, lambda r, k=k, v=v: c.eq(r.new(o, k), v))
                width = [dof * n, dof * n, loc, loc, ns * n, n, D * n]
                for j, kd in enumerate(KINDS):
                    for a in range(8):
                        v = -1 if ACTIVE[j] is None or (a != 7 and a != ACTIVE[j]) else width[ACTIVE[j]]
                        c.ensure('%s: %s' % (kd, ARGS[a]), lambda r, k=12 + 8 * j + a, v=v: c.eq(r.new(o, k), v))
        mk(ph, nm, f, D)
OFF = {'mech': lambda d: [VOIGT[d]], 'em': lambda d: [VOIGT[d]], 'dyn': lambda d: [VOIGT[d], 2], 'tm': lambda d: [VOIGT[d], d], 'stab': lambda d: [VOIGT[d], d, d * (d + 1)], 'stm': lambda d: [VOIGT[d], d, d + 1, d * (d + 1)],
       'plas': lambda d: [VOIGT[d], STRESS[d], 0, d, -1], 'thplas': lambda d: [VOIGT[d], STRESS[d], 0, d + 1, d]}
for ph, f in OFF.items():
    for D in (1, 2, 3):
        def mk(ph, f, D):
            @contract(P, 'offsets of %s %dD' % (PH[ph][0], D), T, tests=1)
            def _(c):
                o = c.iview('o', [5]); c.call('h_off_' + ph, D, o); c.modifies(o)
                for k, v in enumerate(f(D)): c.ensure('term %d' % k, lambda r, k=k, v=v: c.eq(r.new(o, k), v))
        mk(ph, f, D)
