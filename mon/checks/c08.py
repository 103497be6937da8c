"""C08: healing the normals."""
import numpy as np
from mon import gens, geom
from mon.checks.c09 import domain

PROP = 'C08'
LEVEL = 'exploration'
RULE = ('Surfaces in which an edge has at most two faces, with random subsets of faces '
        'reversed (none, few, half, all but one, all): closed connected solids anywhere in space, convex or not, with handles; '
        'open parts; several bodies; thousands of faces; before and after other queries.')
ASSUMPTIONS = ['Only orientable surfaces are generated.']
REQUIRED = ('outward', 'consistent', 'same-faces', 'idempotent', 'vertices-untouched')

N = {'quick': 2600, 'thorough': 6000}


def cases(tier, seed):
    out = [('large', i, {'n': n}) for i, n in enumerate([30, 60] if tier == 'quick' else [30, 60, 100, 150])]
    return out + [('mesh', i, {}) for i in range(N[tier])]


def run(ctx):
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    what = 'closed'
    if ctx.kind == 'large':
        V, F = gens.torus(ctx.params['n'], ctx.params['n'])
        V, F = gens.split_some(V, F, rng, .5)
        V, F = gens.shuffle(V, F, rng)
        desc = 'large'
    else:
        V, F, desc = gens.solid(rng)
        k = int(rng.integers(7))
        if k == 0:
            V, F = gens.open_part(V, F, rng)
            what = 'open'
        elif k == 1:
            W, G, e = gens.solid(rng, kind='none')
            V, F = gens.union((V, F), (W + np.ptp(V, axis=0).max() * 3 + 10, G))
            what = 'bodies'
        elif k == 2:
            V, F = gens.midpoints(V, F, rng)          # still one closed solid
            desc += '/midpoints'
        elif k == 3:
            V, F = gens.odd(V, F, rng)
            what = 'odd'
    scale = float(rng.choice([1., 1., 1e-2, 1e-4, 1e-6, 1e3, 1e5]))
    V = V * scale
    if not domain(F):
        ctx.saw('outside domain')
        return
    mode = str(rng.choice(['none', 'few', 'half', 'all', 'all but one', 'first']))
    fl = {'none': np.zeros(len(F), bool), 'few': rng.random(len(F)) < .1, 'half': rng.random(len(F)) < .5,
          'all': np.ones(len(F), bool), 'all but one': np.ones(len(F), bool), 'first': np.zeros(len(F), bool)}[mode]
    if mode == 'all but one':
        fl[rng.integers(len(F))] = False
    if mode == 'first':
        fl[0] = True
    G = F.copy()
    G[fl] = G[fl][:, ::-1]
    rep = False
    if what in ('closed', 'bodies') and rng.random() < .2 and geom.is_tri(F).any():
        rep = True                                       # triangles that repeat another vertex than the first
        for i in np.where(geom.is_tri(G))[0]:
            if rng.random() < .7:
                a, b, c = G[i, :3]
                G[i] = [(a, b, c, c), (a, a, b, c), (a, b, b, c)][rng.integers(3)]
        what += ', repeated'
    m = Mesh(V, G)
    m.verbose = bool(rng.random() < .2)
    pre = []
    for q in ('faces_normals', 'ff', 'boundaries', 'volume', 'triangles_ids'):
        if rng.random() < .25:
            getattr(m, q)
            pre.append(q)
    m.heal_normals()
    H = np.array(m.faces)
    d = '%s %s x%g, reversed: %s, queried before: %s' % (desc, what, scale, mode, pre)
    ctx.saw(what, 'reversed ' + mode)
    ctx.check('vertices-untouched', np.array_equal(m.vertices, V), d + ': vertices changed')
    cyc0, cyc1 = geom.cycles(F), geom.cycles(H)
    if rep:
        cyc1 = [[v for k, v in enumerate(c) if v != c[k - 1]] for c in cyc1]
        what = what.split(',')[0]
        K = np.array([list(c) + [c[0]] if len(c) == 3 else list(c) for c in cyc1])
        ctx.check('same-faces', [len(c) for c in cyc1] == [len(c) for c in cyc0], d + ': corners are lost')
    else:
        K = H
    same = [geom.canon(a) == geom.canon(b) for a, b in zip(cyc0, cyc1)]
    opp = [geom.canon(a) == geom.canon(b[::-1]) for a, b in zip(cyc0, cyc1)]
    ctx.check('same-faces', len(cyc0) == len(cyc1) and all(a or b for a, b in zip(same, opp)), d + ': faces other than reversed')
    ctx.check('consistent', geom.is_consistent(K), d + ': an edge is travelled twice in the same direction')
    if not rep:
        ctx.check('consistent', all((f[0] == f[3]) == (len(c) == 3) for f, c in zip(H, cyc0)), d + ': a triangle is badly written')
    if what == 'closed':
        ctx.check('outward', all(same), '%s: %d of %d faces are inward' % (d, len(same) - sum(same), len(same)))
        ctx.check('outward', rep or m.volume > 0, d + ': volume %g' % m.volume)
    if what == 'odd' or what == 'bodies' and abs(geom.volume_moments(V, K)[0]) < 1e-9 * geom.size(V) ** 3:
        ctx.saw('no volume or opposite volumes: outward undefined')
        return
    m.heal_normals()
    ctx.check('idempotent', geom.canon_ids(m.faces) == geom.canon_ids(H), d + ': healing again changes the faces')
    ctx.distinct(V, G, pre)
    ctx.sample = {'mesh': d, 'nv': len(V), 'nf': len(F)}
