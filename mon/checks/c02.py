"""C02: per-face geometry, classification, bounding boxes and edge statistics against an independent evaluation."""
import numpy as np
from mon import gens, geom

PROP = 'C02'
LEVEL = 'exploration'
RULE = ('Meshes of planar faces from every generator (solids, open parts, unmerged panels, random faces; pure triangles, pure '
        'quads, mixtures; single faces, kites, parallelograms, trapezoids; thousands of faces; tiny, huge and far coordinates), built from float, integer, '
        'float32, list and Fortran-ordered arrays; the reported per-face quantities are compared with an independent '
        'evaluation face by face.  Distinct by mesh arrays.')
ASSUMPTIONS = ['Quadrangles are planar and convex.', 'Relative accuracy demanded: 1e-9 of the mesh scale (1e-6 for normals).']
REQUIRED = ('area', 'normal', 'center', 'classification', 'bbox', 'squared-bbox', 'edge-lengths', 'counts', 'get_face', 'quality', 'summary')

N = {'quick': 2400, 'thorough': 6000}


def cases(tier, seed):
    out = [('large', i, {'n': n}) for i, n in enumerate([40, 110] if tier == 'quick' else [40, 110, 160, 230, 330])]
    out += [('mesh', i, {}) for i in range(N[tier])]
    out += [('single', i, {}) for i in range(N[tier] // 4)]
    out += [('quality', i, {}) for i in range(N[tier] // 8)]
    return out


def special_quads(rng):
    """Quadrangles with equal halves, equal or parallel sides, right angles, and nearly so."""
    V, F = [], []
    shape = str(rng.choice(['kite', 'kite', 'trapezoid', 'rectangle', 'square', 'parallelogram', 'rhombus', 'mixed']))
    near = float(rng.choice([0., 0., 1e-2, 1e-4]))
    for k in range(int(rng.choice([1, 1, 3, 20]))):
        a, b, c, d = rng.integers(1, 9, 4) / 2.
        q = {'kite': [(0, -a), (b, 0), (0, c), (-b, 0)], 'trapezoid': [(0, 0), (a, 0), (d + b, c), (d, c)],
             'rectangle': [(0, 0), (a, 0), (a, b), (0, b)], 'square': [(0, 0), (a, 0), (a, a), (0, a)],
             'parallelogram': [(0, 0), (a, b), (a + c, b + d), (c, d)], 'rhombus': [(0, -a), (b, 0), (0, a), (-b, 0)]}
        P = np.array(q[shape if shape != 'mixed' else str(rng.choice(list(q)))], float)
        P = P + near * rng.uniform(-.3, .3, P.shape)
        if rng.random() < .5:
            P = np.roll(P, int(rng.integers(4)), axis=0)
        P = np.hstack([P, np.zeros((4, 1))])
        if rng.random() < .5:
            P = P @ geom.rot_axis_angle(rng.normal(size=3), rng.uniform(0, 3)).T
        P = P + (rng.integers(-5, 6, 3) if rng.random() < .5 else 0)
        F.append([4 * k, 4 * k + 1, 4 * k + 2, 4 * k + 3])
        V += P.tolist()
    V, F = np.array(V), np.array(F)
    ok = [not degenerate(V[f]) for f in F]
    return (V, F[ok], shape) if any(ok) else special_quads(rng)


def degenerate(P):
    n = np.cross(np.roll(P, -1, axis=0) - P, np.roll(P, -2, axis=0) - np.roll(P, -1, axis=0))
    n = n @ n.sum(axis=0)
    return not (n > 1e-3 * n.max()).all() or n.max() <= 0           # not convex


def build(V, F, rng):
    from meshmagick.mesh import Mesh
    how = int(rng.integers(6))
    if how == 1:
        return Mesh(V.tolist(), F.tolist()), V
    if how == 2:
        return Mesh(np.asfortranarray(V), np.asfortranarray(F)), V
    if how == 3:
        W = V.astype(np.float32)
        return Mesh(W, F.astype(np.int32)), W.astype(float)
    if how == 4:
        return Mesh([tuple(v) for v in V], [tuple(int(i) for i in f) for f in F], name='n'), V
    if how == 5:
        m = Mesh(np.zeros((3, 3)), [[0, 1, 2, 0]])
        m.vertices = V
        m.faces = F
        return m, V
    return Mesh(V, F), V


def edge_lengths(V, F):
    out = []
    for c in geom.cycles(F):
        for i in range(len(c)):
            out.append(np.linalg.norm(V[c[i]] - V[c[i - 1]]))
    return np.array(out)


def judge(ctx, m, V, F, desc):
    s, ext = geom.size(V), geom.extent(V)
    A = geom.face_areas(V, F)
    tri = geom.is_tri(F)
    err = 3e-14 * s * (ext + 1e-12 * s)         # round off of an area computed from coordinates of size s
    ctx.close('area', m.faces_areas, A, 1e-9 * A + 10 * err, desc)
    good = A > 1e-6 * A.max()
    ntol = 1e-9 + 100 * err / A[good]
    ok = ntol < .1
    ctx.close('normal', np.array(m.faces_normals)[good][ok], geom.face_normals(V, F)[good][ok], ntol[ok][:, None], desc)
    ctx.close('center', np.array(m.faces_centers)[good][ok], geom.face_centers(V, F)[good][ok],
              1e-10 * s + (ntol[ok] * ext)[:, None], desc)
    ctx.equal('classification', list(m.triangles_ids), list(np.where(tri)[0]), desc + ' triangles_ids')
    ctx.equal('classification', list(m.quadrangles_ids), list(np.where(~tri)[0]), desc + ' quadrangles_ids')
    ctx.check('counts', (m.nb_triangles, m.nb_quadrangles, m.nb_faces, m.nb_vertices) ==
              (tri.sum(), (~tri).sum(), len(F), len(V)), desc + ' counts')
    lo, hi = V.min(axis=0), V.max(axis=0)
    ctx.close('bbox', m.axis_aligned_bbox, [lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]], 0., desc)
    c, h = (lo + hi) / 2, (hi - lo).max() / 2
    ctx.close('squared-bbox', m.squared_axis_aligned_bbox,
              [c[0] - h, c[0] + h, c[1] - h, c[1] + h, c[2] - h, c[2] + h], 1e-12 * s, desc)
    L = edge_lengths(V, F)
    ctx.saw(desc.split('/')[0])
    ctx.close('edge-lengths', [m.min_edge_length, m.max_edge_length, m.mean_edge_length], [L.min(), L.max(), L.mean()],
              1e-10 * s, desc)
    summary(ctx, m, V, F, desc)
    for k in ctx.rng.integers(0, len(F), 5):
        f = F[k, :3] if tri[k] else F[k]
        ctx.check('get_face', list(m.get_face(int(k))) == list(f) and bool(m.is_triangle(int(k))) == bool(tri[k]),
                  desc + ' get_face(%d)' % k)
    ctx.saw('triangles' if tri.all() else 'quads' if not tri.any() else 'mixed')


MEASURES = {3: ['Area Ratio', 'Edge Ratio', 'Aspect Ratio', 'Radius Ratio', 'Frobenius Norm', 'Minimal Angle'],
            4: ['Area Ratio', 'Edge Ratio', 'Aspect Ratio', 'Radius Ratio', 'Average Frobenius Norm', 'Maximal Frobenius Norm', 'Minimal Angle']}


def measures(P):
    """The quality measures of faces of n corners (their definitions in the Verdict manual); P: (faces, n, 3)."""
    n = P.shape[1]
    e = np.roll(P, -1, axis=1) - P
    L = np.linalg.norm(e, axis=2)
    b = np.roll(e, 1, axis=1)
    cr = np.linalg.norm(np.cross(b, e), axis=2)                                # twice the area of the corners
    ang = np.degrees(np.arctan2(cr, -(b * e).sum(axis=2))).min(axis=1)
    per = L.sum(axis=1)
    fro = (L ** 2 + np.roll(L, 1, axis=1) ** 2) / (2 * cr)
    if n == 3:
        A = cr[:, 0] / 2
        asp = L.max(axis=1) * per / (4 * np.sqrt(3) * A)
        rad = L.prod(axis=1) * per / (16 * A ** 2)
        return [A, L.max(axis=1) / L.min(axis=1), asp, rad, (L ** 2).sum(axis=1) / (4 * np.sqrt(3) * A), ang]
    A = np.linalg.norm(np.cross(P[:, 2] - P[:, 0], P[:, 3] - P[:, 1]), axis=1) / 2
    asp = L.max(axis=1) * per / (4 * A)
    h = np.maximum(L.max(axis=1), np.maximum(np.linalg.norm(P[:, 2] - P[:, 0], axis=1), np.linalg.norm(P[:, 3] - P[:, 1], axis=1)))
    rad = np.sqrt((L ** 2).sum(axis=1)) * h / (cr.min(axis=1) / 2) / np.sqrt(32)
    return [A, L.max(axis=1) / L.min(axis=1), asp, rad, fro.mean(axis=1), fro.max(axis=1), ang]


def quality(ctx, V, F, desc):
    import contextlib
    import io
    import re
    rng = ctx.rng
    m, W = build(V, F, rng)
    if geom.size(W - V) > 0:
        m, W = build(V, F, np.random.default_rng(0))[0], V
    if rng.random() < .3:
        judge(ctx, m, W, F, desc)
    ctx.distinct(W, F)
    ctx.sample = {'mesh': desc, 'nv': len(W), 'nf': len(F)}
    before = m.vertices.copy(), m.faces.copy()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        m.print_quality()
    s = out.getvalue()
    ctx.check('quality', np.array_equal(before[0], m.vertices) and np.array_equal(before[1], m.faces), desc + ': print_quality changes the mesh')
    tri = geom.is_tri(F)
    num = r'(-?[\d.]+(?:e[-+]\d+)?)'
    for n, word, which in ((3, 'Triangle', tri), (4, 'Quadrilateral', ~tri)):
        b = re.search(word + r' quality of the mesh \((\d+) elements\):(.*?)(?=\n[A-Z])', s, re.S)
        if not ctx.check('quality', b is not None and int(b.group(1)) == which.sum(), '%s: %s elements are reported for %s, there are %d' % (
                desc, b and b.group(1), word, which.sum())):
            return
        got = re.findall(r' ([A-Z][A-Za-z ]+):\s+range: +%s +- +%s\s+average: +%s +, standard deviation: +%s' % (num, num, num, num), b.group(2))
        if not ctx.check('quality', [g[0] for g in got] == MEASURES[n], '%s: the measures for %s are %r' % (desc, word, [g[0] for g in got])):
            return
        if not which.any():
            continue
        P = W[F[which][:, :n]]
        M = measures(P)
        # coordinates are in single precision in there: this is what they do to the shape of the thinnest face
        d = 2e-7 * np.abs(W).max() * np.linalg.norm(P - np.roll(P, 1, axis=1), axis=2).max(axis=1) / M[0]
        d = np.maximum(d, 2e-7 * np.abs(W).max() / np.linalg.norm(P - np.roll(P, 1, axis=1), axis=2).min(axis=1)).max()
        if d > 1e-4:
            ctx.saw('quality: a thin face')
            continue
        ctx.saw('quality: ' + word)
        for g, x in zip(got, M):
            if g[0] in ('Aspect Ratio', 'Radius Ratio') and n == 4 and d > 1e-6:
                t = 100 * d + 1e-5
            else:
                t = 30 * d + 1e-5
            v = [float(k) for k in g[1:]]
            ref = [x.min(), x.max(), x.mean(), x.std(ddof=1) if len(x) > 1 else 0.]
            t = t * x.max()
            ctx.close('quality', v, ref, np.array([t, t, t, 3 * t + 1e-5 * x.max()]), '%s: %s of the %ss' % (desc, g[0], word))


def summary(ctx, m, V, F, desc):
    """What print shows of a mesh."""
    import re
    s = str(m)
    ctx.check('summary', [int(x) for x in re.findall(r'Number of (?:vertices|faces|triangles|quadrangles): +(\d+)', s)] == [
        len(V), len(F), int(geom.is_tri(F).sum()), int((~geom.is_tri(F)).sum())] and m.name in s,
              '%s: the summary %r for %d vertices and %d faces' % (desc, s, len(V), len(F)))
    b = [float(x) for x in re.findall(r'[xyz](?:min|max) = (\S+)', s)]
    lo, hi = V.min(axis=0), V.max(axis=0)
    ref = np.column_stack([lo, hi]).ravel()
    ctx.close('summary', b, ref, 5.1e-7 + 1e-6 * np.abs(ref), desc + ': bounds in the summary')


def run(ctx):
    rng = ctx.rng
    if ctx.kind == 'quality':
        if rng.random() < .3:
            V, F, desc = special_quads(rng)
        elif rng.random() < .3:
            V, F = gens.soup(rng, int(rng.integers(1, 40)), rng.random())
            desc = 'soup'
        else:
            V, F, desc = gens.solid(rng)
            if rng.random() < .5:
                V, F = gens.split_some(V, F, rng, rng.random())
        return quality(ctx, V * 10. ** rng.integers(-3, 4), F, desc)
    if ctx.kind == 'large':
        V, F = gens.sphere(ctx.params['n'], ctx.params['n'])
        V, F = gens.split_some(V, F, rng, .3)
        V, F, k = gens.affine(V, F, rng)
        desc = 'large/' + k
    elif ctx.kind == 'single':
        if rng.random() < .5:
            V, F, desc = special_quads(rng)
        else:
            V, F = gens.soup(rng, 1)
            desc = 'single'
        if rng.random() < .5:
            V = V * 10. ** rng.integers(-4, 5)
        if rng.random() < .3:
            V = V + rng.normal(size=3) * 10. ** rng.integers(0, 7) * geom.extent(V)
            desc += ' far'
    else:
        k = int(rng.integers(8))
        V, F, desc = gens.solid(rng)
        if k == 0:
            V, F = gens.soup(rng, int(rng.integers(1, 200)))
            desc = 'soup'
        elif k == 1:
            V, F = gens.open_part(V, F, rng)
        elif k == 2:
            V, F = gens.panels(V, F)
        elif k == 3:
            V, F = gens.grid_box(*[int(i) for i in rng.integers(1, 6, 3)])
            V = np.round(V * 60)
            desc = 'integer'
        elif k in (4, 5):
            V = gens.any_unit(V, rng, 1.)
            desc += '/any unit'
    m, W = build(V, F, rng)
    if geom.size(W - V) > 0 and geom.planarity(W, F) > 1e-6:
        m, W = build(V, F, np.random.default_rng(0)), V
        m = m[0]
    ctx.distinct(W, F)
    ctx.sample = {'mesh': desc, 'nv': len(W), 'nf': len(F)}
    judge(ctx, m, W, F, desc)
    if rng.random() < .3:                      # again after the rest was queried, and after an edit
        judge(ctx, m, W, F, desc + '/again')
        W2 = W * rng.uniform(.5, 2, 3)
        m.vertices = W2
        judge(ctx, m, W2, F, desc + '/new vertices')
