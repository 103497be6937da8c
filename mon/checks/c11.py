"""C11: assembling, extracting, triangulating and copying conserve the faces."""
import numpy as np
from mon import gens, geom

PROP = 'C11'
LEVEL = 'exploration'
RULE = ('Pairs of meshes (disjoint, sharing vertices, identical, empty selections, single faces), random selections of faces '
        'and mixed meshes; the faces of sums, extractions, triangulations and copies are matched one to one with those of '
        'their operands; operands must be unchanged and independent of the results.')
ASSUMPTIONS = ['Adding merges vertices within 1e-8.', 'Quads are planar and convex.']
REQUIRED = ('add-faces', 'add-operands', 'extract-faces', 'extract-index', 'extract-vertices', 'triangulate-pieces',
            'triangulate-cover', 'copy-independent', 'add-volume')

N = {'quick': 900, 'thorough': 2500}


def cases(tier, seed):
    out = [('large', 0, {'n': 60})]
    for k in ('add', 'extract', 'triangulate', 'copy'):
        out += [(k, i, {}) for i in range(N[tier])]
    return out


def some(rng):
    V, F, d = gens.solid(rng, kind=str(rng.choice(['none', 'rigid', 'aniso', 'far'])))
    if rng.random() < .3:
        V, F = gens.open_part(V, F, rng)
        d += '/open'
    if rng.random() < .1:
        V, F = gens.soup(rng, int(rng.integers(1, 20)))
        d = 'soup'
    return V, F, d


def query(m, rng):
    for q in ('faces_normals', 'volume', 'triangles_ids', 'faces_centers'):
        if rng.random() < .2:
            getattr(m, q)


def run(ctx):
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    V, F, desc = some(rng)
    kind = ctx.kind
    if kind == 'large':
        V, F = gens.split_some(*gens.sphere(60, 60), rng, .5)
        desc, kind = 'large', str(rng.choice(['add', 'extract', 'triangulate']))
    m = Mesh(V, F, name=None if rng.random() < .5 else 'body')
    query(m, rng)
    s = geom.size(V)
    ctx.distinct(kind, V, F)
    ctx.sample = {'kind': kind, 'mesh': desc}
    if kind == 'add':
        k = int(rng.integers(4))
        if k == 0:
            W, G, e = V.copy(), F.copy(), 'itself'
        elif k == 1:
            W, G, e = V + np.array([V[:, 0].max() - V[:, 0].min(), 0, 0]), F, 'neighbour'
        elif k == 2:
            W, G, e = some(rng)
            if rng.random() < .6:
                W = W / geom.extent(W) * 10. ** rng.uniform(-4, 0) + rng.normal(size=3) * 10. ** rng.uniform(0, 5)
                e += ' small and far'
        else:
            W, G, e = some(rng)
        m2 = Mesh(W, G)
        query(m2, rng)
        m.verbose, m2.verbose = bool(rng.random() < .1), bool(rng.random() < .1)
        r = m + m2
        s = max(s, geom.size(W))
        X, H = gens.union((V, F), (W, G))
        u1, u2, rev = geom.match_faces(X, H, r.vertices, r.faces, 2e-8 + 1e-12 * s)
        d = '%s + %s' % (desc, e)
        ctx.check('add-faces', not u1 and not u2 and not rev, '%s: %d faces lost, %d created, %d reversed' % (
            d, len(u1), len(u2), len(rev)))
        ctx.check('add-operands', np.array_equal(m.vertices, V) and np.array_equal(m.faces, F) and
                  np.array_equal(m2.vertices, W) and np.array_equal(m2.faces, G), d + ': an operand changed')
        ctx.check('add-faces', r.nb_vertices == len(np.unique(np.round(r.vertices, 12) + 0., axis=0)) or s > 100,
                  d + ': coincident vertices left')
        n, clear = gens.distinct_rows(np.concatenate([V, W]), 1e-6)
        if clear:
            ctx.check('add-faces', r.nb_vertices == n, '%s: %d vertices, %d distinct ones in the operands' % (d, r.nb_vertices, n))
            ctx.saw('vertices counted')
        v = geom.volume_moments(X, H)[0]
        ctx.close('add-volume', r.volume, v, 1e-7 * s ** 2 + 1e-9 * s ** 3, d + ': volume')
        r.translate([1., 2., 3.])
        r.flip_normals()
        ctx.check('add-operands', np.array_equal(m.vertices, V) and np.array_equal(m.faces, F) and
                  np.array_equal(m2.vertices, W) and np.array_equal(m2.faces, G), d + ': editing the sum edits an operand')
    elif kind == 'extract':
        n = int(rng.choice([1, len(F), rng.integers(1, len(F) + 1)]))
        ids = rng.permutation(len(F))[:n]
        if rng.random() < .5:
            ids = np.sort(ids)
        given = ids.copy()
        if rng.random() < .5:
            r, idx = m.extract_faces(given, return_index=True)
            idx = np.asarray(idx)
            ctx.check('extract-index', idx.shape == (r.nb_vertices,) and np.array_equal(np.array(r.vertices), V[idx]),
                      desc + ': the returned vertex indices')
        else:
            r = m.extract_faces(given)
        W, G = np.array(r.vertices), np.array(r.faces)
        ctx.check('extract-faces', G.shape == (n, 4) and np.array_equal(W[G], V[F[ids]]),
                  '%s: the %d extracted faces are not those asked for, in order' % (desc, n))
        ctx.check('extract-vertices', len(W) == len(np.unique(F[ids])) and len(np.unique(G)) == len(W),
                  '%s: %d vertices for %d used' % (desc, len(W), len(np.unique(F[ids]))))
        ctx.check('extract-faces', np.array_equal(given, ids) and np.array_equal(m.vertices, V) and
                  np.array_equal(m.faces, F), desc + ': extraction changed its operand')
        r.translate([1., 2., 3.])
        r.heal_triangles()
        ctx.check('extract-faces', np.array_equal(m.vertices, V) and np.array_equal(m.faces, F),
                  desc + ': editing the extracted mesh edits the source')
    elif kind == 'triangulate':
        tri = geom.is_tri(F)
        m.verbose = bool(rng.random() < .2)
        ret = m.triangulate_quadrangles()
        W, G = np.array(m.vertices), np.array(m.faces)
        ctx.check('triangulate-pieces', np.array_equal(ret, G), 'returned faces')
        ctx.check('triangulate-pieces', np.array_equal(W, V) and geom.is_tri(G).all() and
                  len(G) == tri.sum() + 2 * (~tri).sum() and m.nb_triangles == len(G) and m.nb_quadrangles == 0,
                  '%s: %d faces from %d triangles and %d quads' % (desc, len(G), tri.sum(), (~tri).sum()))
        # each quad is covered by two triangles that split it along one of its diagonals
        have = {}
        for c in geom.cycles(G):
            have[geom.canon(c)] = have.get(geom.canon(c), 0) + 1
        bad = 0

        def take(*cs):
            cs = [geom.canon(c) for c in cs]
            if all(have.get(c, 0) >= cs.count(c) for c in cs):
                for c in cs:
                    have[c] -= 1
                return True
            return False
        for c in geom.cycles(F):
            if len(c) == 3:
                bad += not take(c)
        for c in geom.cycles(F):
            if len(c) == 4:
                a, b, e, f = c
                bad += not (take((a, b, e), (a, e, f)) or take((b, e, f), (b, f, a)))
        ctx.check('triangulate-cover', bad == 0 and not any(have.values()), '%s: %d faces are not covered exactly' % (desc, bad))
        ctx.close('triangulate-cover', np.sum(m.faces_areas), geom.face_areas(V, F).sum(), 1e-9 * s * s, desc + ': area')
        m.triangulate_quadrangles()
        ctx.check('triangulate-pieces', geom.canon_ids(m.faces) == geom.canon_ids(G), desc + ': triangulating twice')
    else:
        r = m.copy()
        ctx.check('copy-independent', r is not m and np.array_equal(r.vertices, V) and np.array_equal(r.faces, F) and
                  r.name == m.name, desc + ': the copy differs')
        a, b = (m, r) if rng.random() < .5 else (r, m)
        keep = {q: np.array(getattr(b, q)) for q in ('faces_areas', 'faces_normals', 'faces_centers', 'volume')}
        ops = []
        for _ in range(int(rng.integers(1, 5))):
            op = str(rng.choice(['translate_x', 'translate', 'scale', 'flip_normals', 'heal_triangles', 'rotate',
                                 'triangulate_quadrangles', 'merge_duplicates', 'mirror', 'symmetrize', 'heal_mesh']))
            ops.append(op)
            from meshmagick.mesh import Plane
            arg = {'translate_x': (2.,), 'translate': ([1., 2., 3.],), 'scale': (3.,), 'rotate': ([.1, .2, .3],),
                   'mirror': (Plane([0, 1, 0], 1.),), 'symmetrize': (Plane([0, 0, 1], 7.),)}.get(op, ())
            try:
                getattr(a, op)(*arg)
            except RuntimeError:
                break
        ctx.check('copy-independent', np.array_equal(b.vertices, V) and np.array_equal(b.faces, F),
                  '%s: %s on one of the copies changes the other' % (desc, ops))
        for q, v in keep.items():
            ctx.check('copy-independent', np.array_equal(getattr(b, q), v, equal_nan=True),
                      '%s: %s on one of the copies changes %s of the other' % (desc, ops, q))
