"""C13: the boundary polygons of a clipping are the section of the surface by the plane."""
import numpy as np
from mon import gens, geom
from mon.checks import c12

PROP = 'C13'
LEVEL = 'exploration'
RULE = ('Closed solids (convex or not, with holes, several bodies) and open surfaces clipped by planes away from the vertices or '
        'exactly through vertices, plates of two opposite panels.  The section loops are computed independently from the edges the plane crosses; number of '
        'loops, closedness, position, orientation (area vector against the plane normal, loop by loop for nested sections), '
        'coverage of the free edges of the clipped mesh and watertightness are compared.')
ASSUMPTIONS = ['Transversal sections: no section vertex is shared by two loops, no ridge of the surface lies in the plane; source meshes are consistently oriented and '
               'outward; intersections are further apart than the merging distance 1e-5 of the clipper.']
REQUIRED = ('closed-loops', 'loop-count', 'on-plane', 'section-area', 'free-edges', 'orientation', 'open-lines', 'asserted', 'direction',
            'vertices-of')

N = {'quick': 600, 'thorough': 3000}


def cases(tier, seed):
    out = [('large', i, {'n': 60}) for i in range(1 if tier == 'quick' else 4)] + [('large', i, {'n': 1200}) for i in range(1 if tier == 'quick' else 3)]
    for k in ('closed', 'exact', 'open'):
        out += [(k, i, {}) for i in range(N[tier])]
    out += [('teeth', i, {}) for i in range(N[tier] // 4)]
    out += [('plates', i, {}) for i in range(N[tier] // 10)]
    return out


def teeth(rng):
    """Open strip of quadrangles with a vertex in the middle of the side that lies in the plane, and others cut by it."""
    V, F = [], []
    k = int(rng.integers(1, 7))
    V += [(0, 0, 0)]
    left = 0
    for i in range(k):
        n = len(V)
        if rng.random() < .7:
            V += [(2 * i + 1, 0, 0), (2 * i + 2, 0, 0), (2 * i + rng.uniform(.5, 1.5), 0, -rng.uniform(.3, 2))]
            F.append([n + 2, n + 1, n, left])
            if rng.random() < .3:
                V.append((2 * i + 1, .5, 1.))
                F.append([left, n, n + 3, left])
                F.append([n, n + 1, n + 3, n])
            left = n + 1
        else:
            V += [(2 * i + 1, 0, 1), (2 * i + 2, 0, 0), (2 * i + 1, 0, -1)]
            F.append([n + 2, n + 1, n, left])
            left = n + 1
    V, F = np.array(V, float), np.array(F)
    if rng.random() < .5:
        F = np.where((F[:, :1] == F[:, 3:]), F[:, [0, 2, 1, 0]], F[:, ::-1])
    V, F = gens.shuffle(V, F, rng)
    return V, F


def plates(ctx):
    """Plates of two opposite panels (triangles or quadrangles) on the same vertices, each cut along one segment."""
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.mesh_clipper import MeshClipper
    rng = ctx.rng
    V, F, want = [], [], []
    for i in range(int(rng.integers(1, 5))):
        a = len(V)
        x = [(4 * i + u, rng.uniform(-1, 1), z * rng.uniform(.3, 2)) for u, z in ((0, -1), (1, -1), (1.2, 1), (.1, 1))]
        x[2], x[3] = np.add(x[1], np.subtract(x[2], x[1])), np.add(x[0], np.subtract(x[2], x[1]) * rng.uniform(.7, 1.3))
        f = [a, a + 1, a + 2, a + 3]
        if rng.random() < .4:
            f = [a, a + 1, a + 2, a]
            x = x[:3]
        g = list(range(len(x)))
        for u, v in zip(g, g[1:] + g[:1]):
            if x[u][2] * x[v][2] < 0:
                t = x[u][2] / (x[u][2] - x[v][2])
                want.append(np.add(x[u], np.subtract(x[v], x[u]) * t))
        V += [tuple(y) for y in x]
        F += [f, f[::-1]]
    V, F = gens.shuffle(np.array(V, float), np.array(F), rng)
    R, t = geom.rot_axis_angle(rng.normal(size=3), rng.uniform(0, 3)), rng.uniform(-5, 5, 3)
    n = R[:, 2]
    V, want = V @ R.T + t, np.array(want) @ R.T + t
    cl = MeshClipper(Mesh(V, F), Plane(n, float(n @ t)), vicinity_tol=1e-6)
    ctx.distinct(V, F)
    X = np.array(cl.clipped_crown_mesh.vertices)
    P = [[int(i) for i in p] for p in cl.closed_polygons]
    ctx.check('loop-count', len(P) == len(want) // 2 and not cl.open_lines, 'plates: %d cut, polygons %r and lines %r' % (len(want) // 2, P, cl.open_lines))
    ctx.check('closed-loops', all(len(p) == 3 and p[0] == p[2] for p in P), 'plates: polygons %r' % (P,))
    got = [i for p in P for i in p[:2]]
    D = np.linalg.norm(X[got][:, None] - want[None], axis=2) if P else np.ones((1, 1))
    ctx.check('on-plane', len(got) == len(want) and D.min(axis=0).max() < 2e-5 and D.min(axis=1).max() < 2e-5, 'plates: the section is not the cut of the plates')


def hollow(rng):
    """A sphere with a spherical cavity (nested section loops)."""
    V, F = gens.sphere(int(rng.integers(4, 8)), int(rng.integers(5, 12)), 2.)
    W, G = gens.sphere(int(rng.integers(4, 7)), int(rng.integers(4, 9)), .8)
    V, F = gens.union((V, F), (W + rng.uniform(-.3, .3, 3), G[:, ::-1]))
    return V, F, 'hollow'


def section(V, F, side):
    """Directed section segments between the crossed edges / on-plane vertices, from the faces under or across the plane."""
    segs = []
    for cyc in geom.cycles(F):
        s = [side[i] for i in cyc]
        if not any(x < 0 for x in s):
            continue
        pts = []
        k = len(cyc)
        for i in range(k):
            a, b = cyc[i - 1], cyc[i]
            if side[a] * side[b] < 0:
                pts.append(('e', min(a, b), max(a, b)))
            if side[b] == 0:
                pts.append(('v', b))
        if k == 4 and sorted(s) == [-1, 0, 0, 0]:          # three vertices on a straight side
            i = s.index(-1)
            a, b, c = (('v', cyc[(i + j) % 4]) for j in (1, 2, 3))
            segs += [(c, b), (b, a)]
        elif len(pts) == 2:
            # from the point where the cycle goes under the plane to the one where it comes back
            i = next(i for i in range(k) if s[i] < 0 and s[i - 1] >= 0)
            a = ('v', cyc[i - 1]) if s[i - 1] == 0 else ('e', min(cyc[i - 1], cyc[i]), max(cyc[i - 1], cyc[i]))
            segs.append((a, pts[1] if pts[0] == a else pts[0]))
        elif len(pts) > 2:
            return None
    return segs


def run(ctx):
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.mesh_clipper import MeshClipper
    rng = ctx.rng
    if ctx.kind == 'plates':
        return plates(ctx)
    tol = float(rng.choice([1e-3, 1e-4, 1e-6]))
    if ctx.kind == 'large':
        n = ctx.params['n']
        V, F = gens.torus(n, min(n, 60 if n < 100 else 6), 20. if n < 100 else 200., 7.)
        desc = 'large'
    else:
        k = int(rng.integers(5))
        if k == 0:
            V, F, desc = hollow(rng)
        else:
            V, F, desc = gens.solid(rng, kind=str(rng.choice(['none', 'rigid', 'aniso', 'far'])))
        if k == 1:
            W, G, e = gens.solid(rng, kind='none')
            V, F = gens.union((V, F), (W + np.ptp(V, axis=0).max() + 4., G))
            desc += '+' + e
    is_open = ctx.kind in ('open', 'teeth')
    if ctx.kind == 'open':
        V, F = gens.open_part(V, F, rng, float(rng.uniform(.3, .97)))
    if ctx.kind == 'teeth':
        V, F = teeth(rng)
        desc = 'teeth'
        R, t = geom.rot_axis_angle(rng.normal(size=3), rng.uniform(0, 3)), rng.uniform(-5, 5, 3)
        V = V @ R.T + t
        n = R[:, 2]
        c = float(n @ t)
    else:
        exact = ctx.kind == 'exact' or ctx.kind == 'open' and rng.random() < .4
        n, c = (c12.exact_plane if exact else c12.generic_plane)(V, F, rng, tol)
        if ctx.kind == 'large' and ctx.params['n'] > 100:         # thousands of faces across the plane
            n, c = np.array([0, 0, 1.]), float(rng.uniform(1., 3.))
            tol = 1e-6
    if n is None or not c12.quad_ok(V, F, n, c, tol):
        ctx.saw('no such plane')
        return
    ctx.sample = {'mesh': desc, 'nv': len(V), 'nf': len(F), 'n': n, 'c': c}
    d = V @ n - c
    e = 1e-9 * (1 + geom.size(V))
    side = np.where(np.abs(d) <= e, 0, np.sign(d)).astype(int)
    segs = section(V, F, side)
    if segs is None:
        ctx.saw('collinear')
        return
    if len(set(tuple(sorted(x)) for x in segs)) < len(segs):
        ctx.saw('ridge on the plane')
        return
    deg = {}
    for a, b in segs:
        for x in (a, b):
            deg.setdefault(x, []).append((a, b))
    used = set(F.ravel().tolist())
    P = {}
    for x in deg:
        P[x] = V[x[1]] if x[0] == 'v' else V[x[1]] + (V[x[2]] - V[x[1]]) * d[x[1]] / (d[x[1]] - d[x[2]])
    if len(P) > 1:
        from scipy.spatial import cKDTree
        if cKDTree(np.array(list(P.values()))).query_pairs(3e-5):
            ctx.saw('close intersections')
            return
    m = Mesh(V, F)
    try:
        cl = MeshClipper(m, Plane(n, c), vicinity_tol=tol)
    except RuntimeError:
        ctx.saw('refused')
        return
    if any(len(v) > 2 for v in deg.values()) or any(len({x for x in ends}) < len(segs) for ends in zip(*segs)):
        ctx.saw('loops share a vertex')
        return
    ctx.distinct(V, F, n, c)
    ctx.saw('tol %g' % tol)
    X = np.array(cl.clipped_crown_mesh.vertices)
    polys = [[int(i) for i in p] for p in cl.closed_polygons]
    lines = [[int(i) for i in p] for p in cl.open_lines]
    ctx.check('vertices-of', cl.nb_closed_polygons == len(polys) and cl.nb_open_lines == len(lines) and
              len(cl.closed_polygons_vertices) == len(polys) and len(cl.open_lines_vertices) == len(lines) and
              all(np.array_equal(X[p], q) for p, q in zip(polys, cl.closed_polygons_vertices)) and
              all(np.array_equal(X[p], q) for p, q in zip(lines, cl.open_lines_vertices)), desc + ': coordinates of the polygons')
    for p in polys + lines:
        ctx.check('on-plane', np.abs(X[p] @ n - c).max() <= 1.2e-5 + e, '%s: a boundary is %g off the plane' % (
            desc, np.abs(X[p] @ n - c).max()))
    ctx.check('closed-loops', all(len(p) >= 4 and p[0] == p[-1] and len(set(p)) == len(p) - 1 for p in polys),
              '%s: polygons of %r vertices' % (desc, [len(p) for p in polys]))
    ctx.check('open-lines', all(len(p) >= 2 and p[0] != p[-1] and len(set(p)) == len(p) for p in lines), desc + ': an open line')
    # the boundaries go along the free edges of the clipped faces, in the direction the missing part would have
    directed = {(int(a), int(b)) for cy in geom.cycles(np.array(cl.clipped_crown_mesh.faces)) for a, b in zip(cy, cy[1:] + cy[:1])} \
        if cl.clipped_crown_mesh.nb_faces else set()
    for p in polys + lines:
        ctx.check('direction', all((b, a) in directed for a, b in zip(p, p[1:])), '%s: a boundary does not follow the clipped faces backwards' % desc)
    # section graph
    keys = sorted(deg)
    lab = geom.components(len(segs), {k: [i for i, s in enumerate(segs) if k in s] for k in keys}) if len(segs) < 4000 else None
    segset = sorted(tuple(sorted((tuple(np.round(P[a], 4)), tuple(np.round(P[b], 4))))) for a, b in segs)
    # the polygon edges are the section segments
    from scipy.spatial import cKDTree
    got = [(p[i], p[i + 1]) for p in polys + lines for i in range(len(p) - 1)]
    ctx.check('free-edges', len(got) == len(segs), '%s: the boundaries have %d sides, the section has %d' % (
        desc, len(got), len(segs)))
    if segs and len(got) == len(segs):
        t = cKDTree(np.array([P[k] for k in keys]))
        dist, ids = t.query(X[np.array(got).ravel()])
        pairs = sorted(tuple(sorted((keys[a], keys[b]))) for a, b in ids.reshape(-1, 2))
        ctx.check('free-edges', dist.max() <= 1.2e-5 + e and pairs == sorted(tuple(sorted(s)) for s in segs),
                  desc + ': the boundaries are not the section (off by %g)' % dist.max())
    if lab is not None:
        comp = {}
        for i, l in enumerate(lab.tolist()):
            comp.setdefault(l, []).append(segs[i])
        ncl = nop = 0
        for ss in comp.values():
            dg = {}
            for a, b in ss:
                dg[a] = dg.get(a, 0) + 1
                dg[b] = dg.get(b, 0) + 1
            if all(v == 2 for v in dg.values()):
                ncl += 1
            else:
                nop += 1
        ctx.check('loop-count', (len(polys), len(lines)) == (ncl, nop), '%s: %d closed and %d open boundaries, the section '
                  'has %d and %d' % (desc, len(polys), len(lines), ncl, nop))
        ctx.saw('%d closed %d open' % (min(ncl, 4), min(nop, 4)))
        if is_open:
            raised = None
            try:
                MeshClipper(m, Plane(n, c), vicinity_tol=tol, assert_closed_boundaries=True)
            except RuntimeError as exc:
                raised = exc
            ctx.check('asserted', (raised is not None) == (nop > 0), '%s: with closed boundaries asserted and %d open lines: %r' % (
                desc, nop, raised))
    # orientation and watertightness
    out = cl.clipped_mesh
    W, G = np.array(out.vertices), np.array(out.faces)
    s = geom.extent(V)
    if not is_open:
        ctx.check('closed-loops', not lines, '%s: a closed mesh has %d open lines' % (desc, len(lines)))
        a = geom.face_area_vec(W, G).sum(axis=0)
        b = sum((area(X[p[:-1]]) for p in polys), np.zeros(3))
        ctx.close('section-area', b, -a, 1e-4 * s * .2 + 1e-9 * s * s, desc + ': the lids do not close the clipped surface')
        # independent orientation of each loop: the material is on its left seen from the normal side
        for p in polys:
            loop_orientation(ctx, X[p[:-1]], n, V, F, side, P, segs, desc)
        free = {k: f for k, f in geom.undirected_edges(G).items() if len(f) == 1}
        ends = np.array([W[i] for k in free for i in k]) if free else np.zeros((0, 3))
        ctx.check('free-edges', len(free) == len(segs) and (len(ends) == 0 or np.abs(ends @ n - c).max() <= 1.2e-5 + e),
                  '%s: %d free edges in the clipped mesh, the section has %d sides' % (desc, len(free), len(segs)))
        ctx.check('orientation', geom.is_consistent(G), desc + ': the clipped mesh is not consistently oriented')
    else:
        for p in polys + lines:
            ctx.check('open-lines', len(p) >= 2, desc)


def area(P):
    Q = P - P.mean(axis=0)
    return 0.5 * np.cross(Q, np.roll(Q, -1, axis=0)).sum(axis=0)


def loop_orientation(ctx, L, n, V, F, side, P, segs, desc):
    """Looks at the longest side of the loop: a point just at its left must be inside the solid (winding number)."""
    d = np.roll(L, -1, axis=0) - L
    i = int(np.argmax(np.linalg.norm(d, axis=1)))
    mid = L[i] + d[i] / 2
    left = np.cross(n, d[i]) / np.linalg.norm(d[i])
    # just under the plane, next to the side (the side is an edge of the section, the solid is locally a half space)
    h = 1e-3 * np.linalg.norm(d[i])
    inside, outside = (winding(V, F, mid + sg * left * h - 1e-2 * h * n) for sg in (1, -1))
    if abs(abs(inside) - round(abs(inside))) > .05 or abs(inside - outside) < .5:
        ctx.saw('orientation undecided')
        return
    ctx.check('orientation', inside > .5 and outside < .5, '%s: a polygon turns the wrong way (winding numbers %.2f at its left, '
              '%.2f at its right)' % (desc, inside, outside))


def winding(V, F, q):
    T = geom.tris(V, F)[0] - q
    l = np.linalg.norm(T, axis=2)
    num = np.einsum('ni,ni->n', T[:, 0], np.cross(T[:, 1], T[:, 2]))
    den = l.prod(axis=1) + np.einsum('ni,ni->n', T[:, 0], T[:, 1]) * l[:, 2] + np.einsum('ni,ni->n', T[:, 1], T[:, 2]) * l[:, 0] \
        + np.einsum('ni,ni->n', T[:, 2], T[:, 0]) * l[:, 1]
    return float((2 * np.arctan2(num, den)).sum() / (4 * np.pi))
