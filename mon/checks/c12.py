"""C12: clipping a mesh by a plane keeps exactly the part of the surface under the plane."""
import numpy as np
from mon import gens, geom

PROP = 'C12'
LEVEL = 'exploration'
RULE = ('Closed solids, open parts, several bodies and isolated faces, clipped by planes of any direction: planes away from '
        'every vertex, planes running exactly through vertices, edges and faces, planes passing within the tolerance of '
        'vertices.  Faces under the plane must come back untouched; scalar and vector moments up to order two of the clipped '
        'surface are compared with those of an independent Sutherland-Hodgman clipping.')
ASSUMPTIONS = ['Faces are much larger than the vicinity tolerance and, when they have vertices inside the tolerance band, are '
               'not nearly parallel to the plane.']
REQUIRED = ('moments', 'under-untouched', 'partition', 'not-above', 'no-unused', 'source-untouched', 'refused', 'reclip',
            'complement', 'near', 'fine')

N = {'quick': 400, 'thorough': 2500}


def cases(tier, seed):
    out = [('large', i, {'n': 60}) for i in range(1 if tier == 'quick' else 4)]
    for k in ('generic', 'exact', 'face', 'near', 'reclip'):
        out += [(k, i, {}) for i in range(N[tier])]
    out += [('face', i, {}) for i in range(N[tier], 3 * N[tier])]
    out += [(k, i, {}) for k in ('refused', 'special', 'fine', 'retol') for i in range(N[tier] // 3)]
    return out


def tri_moments(T):
    N = 0.5 * np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0])
    a = np.linalg.norm(N, axis=1)
    S = T.sum(axis=1)
    q = (np.einsum('nai,naj->nij', T, T) + np.einsum('ni,nj->nij', S, S)) / 12.
    return [a.sum(), N.sum(axis=0), (a[:, None] * S).sum(axis=0) / 3., np.einsum('ni,nj->ij', N, S) / 3.,
            np.einsum('n,nij->ij', a, q), np.einsum('nk,nij->kij', N, q)], [2, 2, 3, 3, 4, 4]


def a_normal(rng):
    k = int(rng.integers(3))
    if k == 0:
        return np.array([0., 0., 1.])
    n = np.eye(3)[rng.integers(3)] * rng.choice([-1, 1]) if k == 1 else rng.normal(size=3)
    return n / np.linalg.norm(n)


def body(rng):
    """A mesh that may be closed, open or of several pieces."""
    k = int(rng.integers(6))
    V, F, d = gens.solid(rng, kind=str(rng.choice(['none', 'rigid', 'aniso', 'far'])))
    if k == 0:
        V, F = gens.open_part(V, F, rng)
        d += '/open'
    elif k == 1:
        W, G, e = gens.solid(rng, kind='none')
        V, F = gens.union((V, F), (W + np.ptp(V, axis=0).max() + 4., G))
        d += '+' + e
    elif k == 2:
        V = np.concatenate([V, V.mean(axis=0) + rng.normal(size=(3, 3)) * geom.extent(V)])
        d += '/unused'
    elif k == 3:
        V, F = gens.panels(V, F)
        d += '/panels'
    return V, F, d


def generic_plane(V, F, rng, tol, tries=60):
    u = V[np.unique(F)]
    for _ in range(tries):
        n = a_normal(rng)
        d = u @ n
        c = float(rng.uniform(d.min(), d.max()))
        if rng.random() < .2 and d.min() < 0 < d.max():
            c = 0.
        if np.abs(V @ n - c).min() > 2 * tol and (d < c).any() and (d > c).any():
            return n, c
    return None, None


def exact_plane(V, F, rng, tol, tries=80):
    """A plane through at least one vertex, all the others out of the tolerance band or exactly on it."""
    for _ in range(tries):
        f = F[rng.integers(len(F))]
        k = int(rng.integers(3))
        f = np.unique(f) if rng.random() < .3 else f[:3]
        a, b = V[rng.permutation(f)[:2]]
        if k == 0:                                   # through a vertex
            n = a_normal(rng)
        elif k == 1:                                 # along an edge or a diagonal
            n = np.cross(b - a, rng.normal(size=3))
            n /= np.linalg.norm(n)
        else:                                        # in the plane of a face
            n = geom.face_normals(V, np.append(f[:3], f[0])[None])[0] * rng.choice([-1, 1])
        c = float(a @ n)
        d = np.abs(V @ n - c)
        e = 1e-9 * (1 + geom.size(V))
        if not ((d > e) & (d < 2 * tol)).any():
            return n, c
    return None, None


def quad_ok(V, F, n, c, tol):
    """No face nearly parallel to the plane has a vertex in the tolerance band without lying in the plane."""
    d = np.abs(V @ n - c) <= tol
    touched = d[F].any(axis=1)
    nf = geom.face_normals(V, F[touched])
    with np.errstate(invalid='ignore'):
        s = np.linalg.norm(np.cross(nf, n), axis=1)
    allon = d[F[touched]].all(axis=1)
    return not ((s < .05) & ~allon).any()


def run(ctx):
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.mesh_clipper import MeshClipper
    rng = ctx.rng
    tol = float(rng.choice([1e-3, 1e-3, 1e-4, 1e-6]))
    if ctx.kind == 'large':
        V, F = gens.sphere(ctx.params['n'], ctx.params['n'], 20.)
        V, F = gens.split_some(V, F, rng, .3)
        desc = 'large'
    elif ctx.kind == 'face':
        k = int(rng.integers(1, 3))
        V, F = gens.soup(rng, k, spread=3. if k > 1 else 0.)
        desc = 'faces %d' % k
    else:
        V, F, desc = body(rng)
    ctx.sample = {'mesh': desc, 'nv': len(V), 'nf': len(F)}
    if ctx.kind == 'refused':
        return refused(ctx, V, F, desc, tol)
    if ctx.kind == 'special':
        return special(ctx)
    if ctx.kind == 'fine':
        return fine(ctx)
    if ctx.kind == 'retol':
        return retol(ctx, V, F, desc)
    if ctx.kind == 'near':
        return near(ctx, V, F, desc)
    if ctx.kind == 'exact' or (ctx.kind == 'face' and rng.random() < .5):
        n, c = exact_plane(V, F, rng, tol)
    else:
        n, c = generic_plane(V, F, rng, tol)
    if n is None or not quad_ok(V, F, n, c, tol):
        ctx.saw('no such plane')
        return
    m = Mesh(V, F)
    if rng.random() < .4:
        m.faces_normals, m.volume
    plane = Plane(n, c)
    if ctx.kind == 'reclip':
        return reclip(ctx, m, V, F, n, c, tol, desc)
    d = V @ n - c
    e = 1e-9 * (1 + geom.size(V))
    side = np.where(np.abs(d) <= e, 0, np.sign(d)).astype(int)
    kw = {} if tol == 1e-3 and rng.random() < .5 else {'vicinity_tol': tol}
    if rng.random() < .1 and not ((e < np.abs(V[:, 2])) & (np.abs(V[:, 2]) < 3 * tol)).any() and quad_ok(V, F, np.array([0., 0, 1]), 0., tol):
        # no plane given: the horizontal plane through the origin
        n, c = np.array([0., 0., 1.]), 0.
        side = np.where(np.abs(V[:, 2]) <= e, 0, np.sign(V[:, 2])).astype(int)
        if (side[F] > 0).any() and ((side[F] < 0).any(axis=1) & (side[F] > 0).any(axis=1)).any():
            ctx.saw('default plane')
            judge(ctx, MeshClipper(m, **kw), m, V, F, n, c, side, desc + ', no plane given')
            ctx.distinct(V, F, n, c)
        return
    try:
        cl = MeshClipper(m, plane, **kw)
    except RuntimeError as exc:
        fs = side[F]
        ctx.check('refused', exc.args[-1] == ('below' if (side < 0).all() else 'above') and
                  ((side < 0).all() or not ((fs <= 0).all(axis=1) & (fs < 0).any(axis=1)).any() and not (fs < 0).any()),
                  '%s: refused (%r), but the mesh has parts under the plane' % (desc, exc.args))
        ctx.saw('refused')
        return
    judge(ctx, cl, m, V, F, n, c, side, desc)
    ctx.distinct(V, F, n, c)
    ctx.saw('tol %g' % tol)


def judge(ctx, cl, m, V, F, n, c, side, desc):
    from meshmagick.mesh import Plane
    from meshmagick.mesh_clipper import MeshClipper
    rng = ctx.rng
    s = geom.size(V)
    e = 1e-9 * (1 + s)
    out = cl.clipped_mesh
    W, G = np.array(out.vertices), np.array(out.faces)
    fs = side[F]
    below, above = (fs < 0).all(axis=1), (fs > 0).all(axis=1)
    onplane = (fs == 0).all(axis=1)
    for f, t in zip(fs[~below & ~above], geom.is_tri(F)[~below & ~above]):
        f = f[:3] if t else f
        ctx.seen['face %d over %d on %d under' % ((f > 0).sum(), (f == 0).sum(), (f < 0).sum())] += 1
    ctx.check('source-untouched', np.array_equal(m.vertices, V) and np.array_equal(m.faces, F), desc + ': source mesh changed')
    ctx.check('partition', (cl.lower_mesh.nb_faces, cl.crown_mesh.nb_faces, cl.upper_mesh.nb_faces) ==
              (below.sum(), len(F) - below.sum() - above.sum(), above.sum()),
              '%s: %d faces under, %d across and %d over the plane, expected %d, %d, %d' % (
                  desc, cl.lower_mesh.nb_faces, cl.crown_mesh.nb_faces, cl.upper_mesh.nb_faces, below.sum(),
                  len(F) - below.sum() - above.sum(), above.sum()))
    for part, mask, name in ((cl.lower_mesh, below, 'lower'), (cl.upper_mesh, above, 'upper')):
        u1, u2, rev = geom.match_faces(V, F[mask], part.vertices, part.faces, e)
        ctx.check('partition', not (u1 or u2 or rev), '%s: %s part lost %d faces, added %d, reversed %d' % (
            desc, name, len(u1), len(u2), len(rev)))
    u1, u2, rev = geom.match_faces(V, F[below], W, G, 1.1e-5)
    ctx.check('under-untouched', not u1 and not rev, '%s: %d of the %d faces under the plane are lost, %d reversed' % (
        desc, len(u1), below.sum(), len(rev)))
    top = (W[np.unique(G)] @ n - c).max() if len(G) else -1.
    ctx.check('not-above', top <= e + 1.1e-5, '%s: the clipped mesh reaches %g over the plane' % (desc, top))
    ctx.check('no-unused', len(np.unique(G)) == len(W) and (len(W) == 0 or (W @ n - c).max() <= e + 1.1e-5),
              '%s: %d vertices, %d used' % (desc, len(W), len(np.unique(G))))
    polys = geom.clip_polys(V, F[~onplane], n, c)
    polys = [p for p in polys if len(p) >= 3]
    T0, T1 = geom.polys_to_tris(polys), geom.tris(W, G)[0] if len(G) else np.zeros((0, 3, 3))
    slack = 1e-9 * (1 + s)
    pts = T0.reshape(-1, 3)
    if len(pts) > 1:
        from scipy.spatial import cKDTree
        q = np.unique(np.round(pts, 8), axis=0)
        if len(q) < 20000 and len(cKDTree(q).query_pairs(2.2e-5)):
            slack = 4e-5
            ctx.saw('merged intersections')
    A = geom.extent(V) if len(V) else 1.
    (x0, p), (x1, _) = tri_moments(T0), tri_moments(T1)
    per = (np.linalg.norm(T0 - np.roll(T0, 1, axis=1), axis=2).sum() if len(T0) else 0.) + A
    for k in range(6):
        ctx.close('moments', x1[k], x0[k], slack * per * (1 + s) ** (p[k] - 2) * 2, '%s plane %s %g moment %d' % (desc, n, c, k))
    ctx.saw('crown' if len(F) > below.sum() + above.sum() else 'no crown', 'on plane' if (side == 0).any() else 'generic')
    if not onplane.any() and rng.random() < .4:
        try:
            other = MeshClipper(m, Plane(-n, -c), vicinity_tol=cl.vicinity_tol).clipped_mesh
        except RuntimeError:
            return
        y = tri_moments(geom.tris(other.vertices, other.faces)[0] if other.nb_faces else np.zeros((0, 3, 3)))[0]
        z = tri_moments(geom.tris(V, F)[0])[0]
        for k in range(6):
            ctx.close('complement', x1[k] + y[k], z[k], slack * per * (1 + s) ** (p[k] - 2) * 8 + 1e-9 * (1 + s) ** p[k],
                      desc + ': both sides together, moment %d' % k)


def near(ctx, V, F, desc):
    """Vertices of a plane section moved inside the tolerance band: the answer is only defined within the band."""
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.mesh_clipper import MeshClipper
    rng = ctx.rng
    tol = float(rng.choice([1e-3, 1e-4]))
    n, c = exact_plane(V, F, rng, 4 * tol)
    if n is None:
        return
    d = V @ n - c
    on = np.abs(d) < 1e-6
    if on[F].all(axis=1).any() or not quad_ok(V, F, n, c, tol):
        ctx.saw('flat')
        return
    W = V.copy()
    if rng.random() < .5:
        W[on] += (rng.uniform(-.99, .99, on.sum()) * tol)[:, None] * n
    else:
        W[on] += (rng.choice([-1, 1.]) * rng.uniform(0, .99) * tol) * n
    elen = min(np.linalg.norm(W[a] - W[b]) for a, b in geom.undirected_edges(F))
    if elen < 50 * tol:
        return
    m = Mesh(W, F)
    try:
        cl = MeshClipper(m, Plane(n, c), vicinity_tol=tol)
    except RuntimeError as exc:
        ctx.check('refused', not ((W @ n - c)[F] < -tol).any(), desc + ': refused')
        return
    out = cl.clipped_mesh
    X, G = np.array(out.vertices), np.array(out.faces)
    ctx.check('near', len(G) == 0 or (X[np.unique(G)] @ n - c).max() <= tol * 1.01 + 1e-5, desc + ': over the plane')
    lo, hi = geom.polys_to_tris(geom.clip_polys(W, F, n, c - 1.1 * tol)), geom.polys_to_tris(geom.clip_polys(W, F, n, c + 1.1 * tol))
    a0, a1 = (tri_moments(t)[0][0] for t in (lo, hi))
    a = tri_moments(geom.tris(X, G)[0])[0][0] if len(G) else 0.
    per = geom.extent(W) * len(F)
    ctx.check('near', a0 - 30 * tol * per * .1 <= a <= a1 + 30 * tol * per * .1,
              '%s: clipped area %g, expected between %g and %g' % (desc, a, a0, a1))
    ctx.distinct(W, F, n, c)
    ctx.saw('near', 'tol %g' % tol)


def special(ctx):
    """Quads with a vertex on the middle of an edge that lies in the plane; vertices exactly at the tolerance."""
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.mesh_clipper import MeshClipper
    rng = ctx.rng
    if rng.random() < .5:
        # prism over a triangle whose upper face is cut in the middle of its edges, seen from both sides
        V = np.array([[0, 0, 0], [1, 0, 0], [2, 0, 0], [1, 2, 0], [0, 0, 1.], [2, 0, 1.], [1, 2, 1.], [1., .5, 2.], [1., .5, -1.]])
        F = np.array([[2, 1, 0, 8], [0, 1, 2, 7], [2, 3, 7, 2], [3, 0, 7, 3], [3, 2, 8, 3], [0, 3, 8, 0]])
        F = F[rng.permutation(6)]
        for k in range(6):
            if F[k, 0] != F[k, 3]:
                F[k] = np.roll(F[k], rng.integers(4))
        R = geom.rot_axis_angle(rng.normal(size=3), rng.uniform(0, 3)) if rng.random() < .5 else np.eye(3)
        V = V @ R.T * rng.uniform(.5, 5)
        n = R[:, 2] * rng.choice([-1, 1])
        V = V + rng.integers(-2, 3) * n
        c = float(V[0] @ n)
        m = Mesh(V, F)
        cl = MeshClipper(m, Plane(n, c))
        d = V @ n - c
        judge(ctx, cl, m, V, F, n, c, np.where(np.abs(d) < 1e-9, 0, np.sign(d)).astype(int), 'double prism')
        loop = [len(p) for p in cl.closed_polygons]
        ctx.check('moments', loop == [5] and not cl.open_lines, 'double prism: section %r, expected 4 sides' % loop)
        ctx.distinct(V, F, n)
    else:
        t = float(rng.choice([1e-3, 1e-4]))
        V, F = gens.grid_box(int(rng.integers(1, 4)), int(rng.integers(1, 4)), 2)
        V, F = gens.split_some(V, F, rng, .5)
        V, F = gens.shuffle(V, F, rng)
        V[:, 2] = np.where(V[:, 2] == 0, rng.choice([-t, t, 0.], len(V)), V[:, 2])
        cl = MeshClipper(Mesh(V, F), Plane(), vicinity_tol=t)
        out = cl.clipped_mesh
        A = out.faces_areas.sum()
        S = geom.tris(V, F)
        hi = tri_moments(geom.polys_to_tris(geom.clip_polys(V, F, np.array([0, 0, 1.]), 2 * t)))[0][0]
        lo = tri_moments(geom.polys_to_tris(geom.clip_polys(V, F, np.array([0, 0, 1.]), -2 * t)))[0][0]
        ctx.check('near', lo - 1e-6 <= A <= hi + 1e-6, 'vertices exactly at the tolerance: area %g' % A)
        ctx.check('near', np.array(out.vertices)[:, 2].max() <= t * (1 + 1e-9), 'vertices exactly at the tolerance: over the plane')
        ctx.distinct(V, F)


def fine(ctx):
    """Needles whose section is smaller than the vicinity tolerance (but larger than the merging distance 1e-5): no vertex is
    in the tolerance band, so the section is exact."""
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.mesh_clipper import MeshClipper
    rng = ctx.rng
    tol = float(rng.choice([1e-3, 1e-3, 1e-4]))
    if rng.random() < .5:
        V, F = gens.grid_box(1, int(rng.integers(1, 3)), 1)
    else:
        V, F = gens.cylinder(int(rng.integers(3, 8)), 1., 2., 1, 1)
    V, F = gens.split_some(V, F, rng, .3)
    V, F = gens.shuffle(V, F, rng)
    w = float(10. ** rng.uniform(-4, -2.3))
    V = V * [w, w * rng.uniform(1, 2), 1.] + [0., 0., rng.uniform(-.9, .9)]
    n, c = np.array([0., 0., 1.]), 0.
    n = n * rng.choice([-1., 1.])
    if rng.random() < .6:
        R = geom.rot_axis_angle(rng.normal(size=3), rng.uniform(0, 3))
        V, n = V @ R.T, R @ n
    d = V @ n - c
    X = np.array([V[i] + (V[j] - V[i]) * d[i] / (d[i] - d[j]) for i, j in geom.undirected_edges(F) if d[i] * d[j] < 0])
    if len(X) < 3 or min(np.linalg.norm(X - np.roll(X, k, axis=0), axis=1).min() for k in range(1, len(X))) < 3e-5:
        ctx.saw('close intersections')
        return
    d = V @ n - c
    cl = MeshClipper(Mesh(V, F), Plane(n, c), vicinity_tol=tol)
    polys = [p for p in geom.clip_polys(V, F, n, c) if len(p) >= 3]
    T0 = geom.polys_to_tris(polys)
    out = cl.clipped_mesh
    T1 = geom.tris(out.vertices, out.faces)[0]
    (x0, p), (x1, _) = tri_moments(T0), tri_moments(T1)
    for k in range(6):
        # areas of the order of w, or w*w for the vector area and the end faces
        ctx.close('fine', x1[k], x0[k], 1e-7 * w if k in (0, 2, 4) else 1e-10 * max(w, 1e-3), 'needle %g wide, tolerance %g: moment %d' % (w, tol, k))
    top = (np.array(out.vertices)[np.unique(out.faces)] @ n - c).max()
    ctx.check('fine', abs(top) < 1e-9, 'needle: the clipped mesh ends at %g of the plane' % top)
    cyc = geom.cycles(np.array(out.faces))
    ctx.check('fine', all(len(set(q)) == len(q) for q in cyc), 'needle: faces of the clipped mesh have a repeated vertex')
    ctx.check('fine', cl.nb_closed_polygons == 1 and cl.nb_open_lines == 0, 'needle: %d loops, %d open lines' % (cl.nb_closed_polygons, cl.nb_open_lines))
    ctx.distinct(V, F, n, tol)
    ctx.saw('fine')


def retol(ctx, V, F, desc):
    """Vertices inside the tolerance band for some tolerances only: changing the tolerance or the plane of a clipper gives what a
    new clipper gives."""
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.mesh_clipper import MeshClipper
    rng = ctx.rng
    m = Mesh(V, F)
    n = a_normal(rng)
    u = V[np.unique(F)] @ n
    planes = [Plane(n, float(u[rng.integers(len(u))] + rng.choice([-1, 1]) * 3. * 10. ** -int(rng.integers(3, 6)))) for _ in range(2)]

    def new(p, t):
        try:
            return MeshClipper(m, p, vicinity_tol=t)
        except Exception as exc:
            return type(exc).__name__

    t, p = float(10. ** -rng.integers(2, 6)), planes[0]
    cl = new(p, t)
    if isinstance(cl, str):
        return
    for _ in range(5):
        try:
            if rng.random() < .7:
                t = float(10. ** -rng.integers(2, 6))
                what = 'vicinity_tol = %g' % t
                cl.vicinity_tol = t
            else:
                p = planes[rng.integers(2)]
                what = 'plane ='
                cl.plane = p
            got = None
        except Exception as exc:
            got = type(exc).__name__
        ref = new(p, t)
        if got or isinstance(ref, str):
            ctx.check('reclip', got == ref, '%s: %s raises %s, a new clipper %s' % (desc, what, got, ref if isinstance(ref, str) else 'works'))
            return
        for name in ('clipped_mesh', 'lower_mesh', 'upper_mesh', 'crown_mesh', 'clipped_crown_mesh'):
            a, b = getattr(cl, name), getattr(ref, name)
            ctx.check('reclip', np.array_equal(a.vertices, b.vertices) and np.array_equal(a.faces, b.faces),
                      '%s: after %s, %s differs from that of a new clipper' % (desc, what, name))
        ctx.check('reclip', cl.vicinity_tol == t and cl.plane is p, 'the clipper reports another plane or tolerance')
        ctx.saw('retol')
    ctx.distinct(V, F, n)


def refused(ctx, V, F, desc, tol):
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.mesh_clipper import MeshClipper
    rng = ctx.rng
    n = a_normal(rng)
    d = V @ n
    gap = tol * (1 + 10. ** rng.uniform(-3, 2)) if rng.random() < .5 else 2 * tol + rng.exponential(1.)
    where = 'above' if rng.random() < .5 else 'below'
    c = d.min() - gap if where == 'above' else d.max() + gap
    got = None
    try:
        MeshClipper(Mesh(V, F), Plane(n, c), vicinity_tol=tol)
    except RuntimeError as exc:
        got = exc.args[-1]
    ctx.check('refused', got == where, '%s: the mesh is %s the plane, the clipper answers %r' % (desc, where, got))
    ctx.distinct(V, F, n, c)


def reclip(ctx, m, V, F, n, c, tol, desc):
    """A clipper whose plane or tolerance is changed answers like a new one."""
    from meshmagick.mesh import Plane
    from meshmagick.mesh_clipper import MeshClipper
    rng = ctx.rng
    cl = MeshClipper(m, Plane(n, c), vicinity_tol=tol)
    cl.clipped_mesh, cl.closed_polygons
    for _ in range(3):
        n2, c2 = generic_plane(V, F, rng, 2e-3)
        if n2 is None:
            return
        t2 = float(rng.choice([1e-3, 1e-5]))
        if rng.random() < .5:
            cl.plane = Plane(n2, c2)
            cl.vicinity_tol = t2
        else:
            if np.abs(V @ cl.plane.normal - cl.plane.c).min() < 2 * t2:
                continue
            cl.vicinity_tol = t2
            cl.plane = Plane(n2, c2)
        ref = MeshClipper(m, Plane(n2, c2), vicinity_tol=t2)
        for name in ('clipped_mesh', 'lower_mesh', 'upper_mesh', 'crown_mesh', 'clipped_crown_mesh'):
            a, b = getattr(cl, name), getattr(ref, name)
            ctx.check('reclip', np.array_equal(a.vertices, b.vertices) and np.array_equal(a.faces, b.faces),
                      '%s: %s differs from that of a new clipper' % (desc, name))
        ctx.check('reclip', [list(map(int, p)) for p in cl.closed_polygons] == [list(map(int, p)) for p in ref.closed_polygons]
                  and [list(map(int, p)) for p in cl.open_lines] == [list(map(int, p)) for p in ref.open_lines] and
                  cl.nb_closed_polygons == len(ref.closed_polygons) and cl.nb_open_lines == len(ref.open_lines),
                  desc + ': boundary polygons differ from those of a new clipper')
        d = V @ n2 - c2
        judge(ctx, cl, m, V, F, n2, c2, np.sign(d).astype(int), desc)
    ctx.distinct(V, F, n, c)
