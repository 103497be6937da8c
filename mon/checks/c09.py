"""C09: connectivities, boundaries and closedness against the edge structure of the mesh."""
import numpy as np
from mon import gens, geom, probe

PROP = 'C09'
LEVEL = 'exploration'
RULE = ('Meshes in which an edge belongs to at most two faces: closed solids, parts of them (holes, isolated faces, holes that '
        'touch in a vertex), several bodies, bodies sharing one vertex, faces having two edges in common, or vertices that are '
        'no edge of both, random and inconsistent orientations, unused vertices, thousands of faces.  The reported vertex/vertex, vertex/face and '
        'face/face relations, boundary loops and closedness are compared with those read off the face list.')
ASSUMPTIONS = ['Boundary loops are only judged on consistently oriented meshes; their direction and start are free.']
REQUIRED = ('vv', 'vf', 'ff', 'closed', 'loop', 'boundary-cover', 'loop-count')

N = {'quick': 2400, 'thorough': 5000}


def cases(tier, seed):
    out = [('large', i, {'n': n}) for i, n in enumerate([30, 60] if tier == 'quick' else [30, 60, 100, 150])]
    return out + [('mesh', i, {}) for i in range(N[tier])]


def domain(F):
    """Edges with at most two faces, faces without repeated vertex."""
    return all(len(f) <= 2 for f in geom.undirected_edges(F).values()) and \
        all(len(set(c)) == len(c) for c in geom.cycles(F))


def generate(ctx):
    rng = ctx.rng
    if ctx.kind == 'large':
        V, F = gens.sphere(ctx.params['n'], ctx.params['n'])
        V, F = gens.split_some(V, F, rng, .3)
        if rng.random() < .6:
            V, F = gens.open_part(V, F, rng, .98)
        return V, F, 'large', True
    V, F, desc = gens.solid(rng)
    consistent = True
    k = int(rng.integers(12))
    if k in (1, 2):
        V, F = gens.open_part(V, F, rng)
        desc += '/open'
    elif k == 3:
        W, G, e = gens.solid(rng, kind='none')
        V, F = gens.union((V, F), (W + np.ptp(V, axis=0).max() * 3 + 10, G))
        if rng.random() < .5:
            F = F[np.sort(rng.choice(len(F), len(F) - 1, replace=False))]
        desc += '+' + e
    elif k == 4:                                      # two bodies sharing one vertex
        W, G, e = gens.solid(rng, kind='none')
        n = len(V)
        V, F = gens.union((V, F), (W, G))
        F = np.where(F == n, 0, F)
        desc += '*' + e
        if rng.random() < .5:
            V, F = gens.open_part(V, F, rng, .9)
    elif k == 5:
        flip = rng.random(len(F)) < rng.choice([.02, .3])
        flip[rng.integers(len(F))] = True
        F[flip] = F[flip][:, ::-1]
        consistent = False
        if rng.random() < .5:
            V, F = gens.open_part(V, F, rng, .9)
        desc += '/mixed'
    elif k == 6:
        V, F = gens.panels(V, F)
        desc += '/panels'
    elif k == 7:
        V = np.concatenate([V, rng.normal(size=(2, 3))])
        F = F[:, ::-1]
        desc += '/inward+unused'
    elif k in (8, 9):
        V, F = gens.odd(V, F, rng)
        desc += '/odd'
        if rng.random() < .4:
            V, F = gens.open_part(V, F, rng)
    return V, F.copy(), desc, consistent


def run(ctx):
    from meshmagick.mesh import Mesh
    V, F, desc, consistent = generate(ctx)
    if not domain(F):
        ctx.saw('outside domain')
        return
    ctx.distinct(F)
    ctx.sample = {'mesh': desc, 'nv': len(V), 'nf': len(F)}
    m = Mesh(V, F)
    order = ['vv', 'vf', 'ff', 'b', 'closed']
    ctx.rng.shuffle(order)
    cyc = geom.cycles(F)
    und = geom.undirected_edges(F)
    bnd = sorted(e for e, f in und.items() if len(f) == 1)
    for what in order:
        if what == 'vv':
            want = {i: set() for i in range(len(V))}
            for a, b in und:
                want[a].add(b)
                want[b].add(a)
            ctx.check('vv', probe.q_vv(m) == probe.canon_dict(want), desc + ': vertex/vertex relation')
        elif what == 'vf':
            want = {i: set() for i in range(len(V))}
            for k, c in enumerate(cyc):
                for v in c:
                    want[v].add(k)
            ctx.check('vf', probe.q_vf(m) == probe.canon_dict(want), desc + ': vertex/faces relation')
        elif what == 'ff':
            want = {i: set() for i in range(len(F))}
            for f in und.values():
                if len(f) == 2:
                    want[f[0]].add(f[1])
                    want[f[1]].add(f[0])
            ctx.check('ff', probe.q_ff(m) == probe.canon_dict(want), desc + ': face/faces relation')
        elif what == 'closed':
            ctx.check('closed', bool(m.is_mesh_closed()) == (not bnd),
                      '%s: is_mesh_closed() is %s with %d boundary edges' % (desc, m.is_mesh_closed(), len(bnd)))
            ctx.saw('closed' if not bnd else 'open')
        elif consistent:
            B = [[int(i) for i in b] for b in m.boundaries]
            ctx.check('loop-count', m.nb_boundaries == len(B), desc + ': nb_boundaries')
            ctx.check('loop', all(len(b) >= 3 and b[0] == b[-1] for b in B), desc + ': boundary does not close')
            es = sorted(tuple(sorted((b[i], b[i + 1]))) for b in B for i in range(len(b) - 1))
            ctx.check('boundary-cover', es == bnd, '%s: the loops run along %d edges, the mesh has %d boundary edges' % (
                desc, len(es), len(bnd)))
            deg = {}
            for a, b in bnd:
                deg[a] = deg.get(a, 0) + 1
                deg[b] = deg.get(b, 0) + 1
            if all(d == 2 for d in deg.values()):
                lab = geom.components(len(bnd), {v: [i for i, e in enumerate(bnd) if v in e] for v in deg}) \
                    if len(bnd) < 400 else None
                if lab is not None:
                    ctx.check('loop-count', len(B) == len(set(lab.tolist())), '%s: %d loops, expected %d' % (
                        desc, len(B), len(set(lab.tolist()))))
            else:
                ctx.saw('touching loops')
