"""C10: mirroring, symmetrizing and flipping."""
import numpy as np
from mon import gens, geom

PROP = 'C10'
LEVEL = 'exploration'
RULE = ('Solids, half bodies lying on the symmetry plane, bodies a hair beside it and far along it, open parts and random faces, with coordinate and oblique planes, '
        'with zero and non-zero scalars, applied once and in sequences; the resulting faces are matched one to one, as oriented '
        'polygons, with the reflections computed by an independent model.')
ASSUMPTIONS = ['Symmetrizing merges vertices within 1e-8: faces are matched within 2e-8 plus round-off.']
REQUIRED = ('mirror', 'mirror-volume', 'mirror-involution', 'symmetrize', 'symmetrize-merged', 'flip', 'flip-involution')

N = {'quick': 800, 'thorough': 2500}


def cases(tier, seed):
    out = []
    for k in ('mirror', 'symmetrize', 'half', 'flip'):
        out += [(k, i, {}) for i in range(N[tier])]
    out += [('near', i, {}) for i in range(N[tier] // 4)]
    out.append(('large', 0, {'n': 50}))
    return out


def reflect(V, n, c):
    return V - 2 * (V @ n - c)[:, None] * n


def a_plane(rng, V):
    k = int(rng.integers(6))
    n = np.eye(3)[rng.integers(3)] * rng.choice([-1., 1.]) if k < 3 else rng.normal(size=3)
    n = n / np.linalg.norm(n)
    c = 0. if rng.random() < .4 else float(rng.uniform(-1, 1) * geom.size(V) * 1.5)
    return n, c


def run(ctx):
    from meshmagick.mesh import Mesh, Plane
    rng = ctx.rng
    closed = True
    if ctx.kind == 'large':
        V, F = gens.split_some(*gens.sphere(50, 60), rng, .5)
        desc = 'large'
    elif ctx.kind == 'half':
        # a body cut by the plane: the vertices lying on it must be shared after symmetrization
        V, F = gens.grid_box(*[int(i) for i in rng.integers(1, 5, 3)], lo=(0, -1, -2), hi=(3, 1, 1))
        V, F = gens.split_some(V, F, rng, float(rng.choice([0, .5, 1])))
        keep = ~(np.abs(V[F][:, :, 0]) < 1e-12).all(axis=1)
        F = F[keep]
        used = np.unique(F)
        new = -np.ones(len(V), int)
        new[used] = np.arange(len(used))
        V, F = V[used], new[F]
        V, F = gens.shuffle(V, F, rng)
        desc = 'half box'
        closed = False
    else:
        V, F, desc = gens.solid(rng, kind=str(rng.choice(['none', 'rigid', 'aniso', 'far'])))
        if rng.random() < .3:
            V, F = gens.open_part(V, F, rng)
            closed = False
            desc += '/open'
        elif rng.random() < .1:
            V, F = gens.soup(rng, int(rng.integers(1, 20)))
            closed = False
            desc = 'soup'
        if ctx.kind in ('mirror', 'flip'):
            V = gens.any_unit(V, rng)
    n, c = a_plane(rng, V)
    if ctx.kind == 'half':
        R = geom.rot_axis_angle(rng.normal(size=3), rng.uniform(0, 3)) if rng.random() < .5 else np.eye(3)
        t = rng.uniform(-5, 5, 3) * (rng.random() < .5)
        V = V @ R.T + t
        n = R[:, 0] * rng.choice([-1., 1.])
        c = float(n @ t)
    if ctx.kind == 'near':
        # a body beside the plane, at a small distance, anywhere along it
        n = n if rng.random() < .5 else np.eye(3)[rng.integers(3)] * 1.
        V = V - V.mean(axis=0)
        t = rng.normal(size=3) * 10 ** rng.uniform(0, 5)
        c = 0. if rng.random() < .5 else c
        V = V + t - n * (t @ n)
        V = V + n * (c - (V @ n).min() + 10 ** rng.uniform(-5.5, -.5))
        desc += '/near'
    m = Mesh(V, F)
    p = Plane(n * rng.uniform(.5, 2), c)
    for q in ('faces_normals', 'volume', 'triangles_ids', 'faces_centers'):
        if rng.random() < .2:
            getattr(m, q)
    s = geom.size(V) + abs(c)
    eps = 1e-12 * s
    vol = geom.volume_moments(V, F)[0]
    d = '%s plane n=%s c=%g' % (desc, np.round(n, 3), c)
    ctx.distinct(ctx.kind, V, F, n, c)
    ctx.sample = {'mesh': d, 'kind': ctx.kind}
    kind = ctx.kind if ctx.kind not in ('large', 'near') else 'symmetrize'
    if kind == 'mirror':
        m.mirror(p)
        W = reflect(V, n, c)
        u1, u2, rev = geom.match_faces(W, F[:, ::-1], m.vertices, m.faces, eps)
        ctx.check('mirror', not u1 and not u2 and not rev, '%s: %d faces missing, %d extra, %d inward' % (
            d, len(u1), len(u2), len(rev)))
        ctx.check('mirror', m.nb_vertices == len(V), d + ': number of vertices')
        if closed:
            ctx.close('mirror-volume', m.volume, vol, 1e-10 * s ** 3, d + ': volume')
        m.mirror(p)
        u1, u2, rev = geom.match_faces(V, F, m.vertices, m.faces, 3 * eps)
        ctx.check('mirror-involution', not u1 and not u2 and not rev, d + ': mirroring twice')
    elif kind in ('symmetrize', 'half'):
        W = reflect(V, n, c)
        m.verbose = bool(rng.random() < .2)
        v0 = m.verbose
        m.symmetrize(p)
        X, G = gens.union((V, F), (W, F[:, ::-1]))
        u1, u2, rev = geom.match_faces(X, G, m.vertices, m.faces, 2e-8 + eps)
        ctx.check('symmetrize', not u1 and not u2 and not rev, '%s: %d faces missing, %d extra, %d inward' % (
            d, len(u1), len(u2), len(rev)))
        ctx.check('symmetrize', m.verbose == v0, 'verbosity changed')
        on = np.abs(V @ n - c) < 1e-12 * s
        amb = (np.abs(V @ n - c) < 1e-6) & ~on
        if not amb.any():
            # vertices of the plane are shared by both halves; other vertices only merge when they coincide anyway
            Y = np.array(m.vertices)
            dist = np.abs(Y @ n - c)
            ctx.check('symmetrize-merged', (dist < 1e-7).sum() == distinct(V[on]) , '%s: %d vertices on the plane, expected %d' % (
                d, (dist < 1e-7).sum(), distinct(V[on])))
            ctx.saw('%s on plane' % ('some' if on.any() else 'none'))
        if kind == 'half':
            ctx.check('symmetrize-merged', m.is_mesh_closed(), d + ': the symmetrized half body is not closed')
        if closed:
            ctx.close('mirror-volume', m.volume, 2 * vol, 1e-6 * s ** 2 * 1e-2 + 1e-10 * s ** 3, d + ': volume')
    else:
        m.flip_normals()
        u1, u2, rev = geom.match_faces(V, F[:, ::-1], m.vertices, m.faces, 0. + 1e-15 * s)
        ctx.check('flip', not u1 and not u2 and not rev and np.array_equal(m.vertices, V), d + ': flipped faces')
        A = geom.face_areas(V, F)
        ok = A > 1e-6 * A.max()
        ctx.close('flip', np.array(m.faces_normals)[ok] if m.nb_faces == len(F) else [], -geom.face_normals(V, F)[ok], 1e-6,
                  d + ': flipped normals')
        ctx.close('flip', m.volume, -geom.volume_moments(V, F)[0], 1e-9 * s ** 3, d + ': volume after flipping')
        m.flip_normals()
        u1, u2, rev = geom.match_faces(V, F, m.vertices, m.faces, 1e-15 * s)
        ctx.check('flip-involution', not u1 and not u2 and not rev, d + ': flipping twice')
        ctx.check('flip-involution', all((f[0] == f[3]) == bool(t) for f, t in zip(m.faces, geom.is_tri(F))), d)


def distinct(P):
    return len({tuple(np.round(q, 6)) for q in (P + 0.)})
