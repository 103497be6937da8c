"""C05: plane geometry."""
import re

import numpy as np
from mon import geom

PROP = 'C05'
LEVEL = 'exploration'
RULE = ('Random planes (axis-aligned, opposite, random, nearly vertical normals; zero, small, large scalars) built and '
        'modified by random sequences of the editing methods, with random points and edges (integers included); distances, '
        'projections, frames, intersections and angles are judged against the plane n.x = c that a reference model tracks.')
ASSUMPTIONS = ['The orientation of the in-plane axes is free; the third axis is the normal and the origin is c.n.']
REQUIRED = ('normal', 'distance', 'projection', 'frame', 'intersection', 'intersection-refused', 'angles', 'flip',
            'rotate_normal', 'origin', 'intersection-end', 'set_plane_parameters', 'text')

N = {'quick': 3600, 'thorough': 6000}


def cases(tier, seed):
    return [('plane', i, {}) for i in range(N[tier])]


def rodrigues(tx, ty):
    t = np.hypot(tx, ty)
    if t == 0:
        return np.eye(3)
    return geom.rot_axis_angle([tx, ty, 0.], t)


def any_normal(rng):
    k = int(rng.integers(6))
    if k == 0:
        return np.eye(3)[rng.integers(3)] * rng.choice([-1., 1.])
    if k == 1:
        return np.array([0., 0., 1.]) * rng.choice([-1, 1]) + rng.normal(size=3) * 10. ** rng.uniform(-8, -2)
    if k == 2:
        v = rng.normal(size=3)
        v[2] = 0.
        return v
    return rng.normal(size=3) * 10. ** rng.uniform(-3, 3)


def judge(ctx, p, n, c, msg):
    rng = ctx.rng
    ctx.close('normal', p.normal, n, 1e-9, msg + ' normal')
    ctx.close('scalar', p.c, c, 1e-9 * (1 + abs(c)), msg + ' scalar')
    s = 1 + abs(c)
    P = rng.normal(size=(int(rng.integers(1, 8)), 3)) * 10. ** rng.uniform(-1, 2)
    if rng.random() < .2:
        P = np.round(P).astype(int)
    P0 = P.copy()
    s = s + np.abs(P).max()
    d = P @ n - c
    ctx.close('distance', p.get_point_dist_wrt_plane(P), d, 1e-8 * s, msg + ' distance')
    ctx.close('distance', p.get_point_dist_wrt_plane(P[0]), d[0], 1e-8 * s, msg + ' distance of one point')
    ctx.close('projection', p.orthogonal_projection_on_plane(P), P - d[:, None] * n, 1e-8 * s, msg + ' projection')
    ctx.close('origin', p.get_origin(), c * n, 1e-8 * s, msg + ' origin')
    X = np.concatenate([P.astype(float), (c * n)[None], (c * n + np.eye(3))])
    C = np.asarray(p.coord_in_plane(X))
    k = len(P)
    ctx.close('frame', C[:, 2], X @ n - c, 1e-8 * s, msg + ' third coordinate in the plane frame')
    ctx.close('frame', C[k], np.zeros(3), 1e-8 * s, msg + ' coordinates of the origin of the plane')
    B = (C[k + 1:] - C[k]).T                       # images of e_x, e_y, e_z
    ctx.close('frame', B @ B.T, np.eye(3), 1e-7 * s, msg + ' the plane frame is not orthonormal')
    ctx.check('frame', np.linalg.det(B) > 0, msg + ' the plane frame is not right handed')
    ctx.close('frame', C, (X - c * n) @ B.T, 1e-7 * s, msg + ' coordinates in the plane frame')
    ctx.check('argument-kept', np.array_equal(P, P0), 'points changed')
    # angles
    tx, ty = p.get_normal_orientation_wrt_z()
    ctx.close('angles', rodrigues(tx, ty) @ [0, 0, 1.], n, 1e-7, msg + ' get_normal_orientation_wrt_z')
    # edges ending exactly on the plane: the signed distance of that end is zero
    if np.count_nonzero(n) == 1 and np.array_equal(p.normal, n) and p.c == c:
        i = int(abs(n).argmax())
        a, b = rng.normal(size=(2, 3)) * 3
        a[i] = n[i] * c
        b[i] = n[i] * (c + rng.choice([-1., 1.]) * rng.uniform(.1, 5))
        for e in ((a, b), (b, a)):
            try:
                I = np.asarray(p.get_edge_intersection(*e))
            except Exception as exc:
                ctx.check('intersection-end', False, msg + ' the intersection at the end of an edge raises %r' % exc)
                continue
            ctx.close('intersection-end', I, a, 1e-9 * s, msg + ' edge ending on the plane')
    # edges
    for _ in range(3):
        a = rng.normal(size=3) * 3
        b = rng.normal(size=3) * 3
        a, b = a + (c - a @ n + rng.uniform(.1, 5)) * n, b + (c - b @ n - rng.uniform(.1, 5)) * n
        if rng.random() < .5:
            a, b = b, a
        if rng.random() < .15:
            a = a - (a @ n - c) * n                # one end on the plane (the intersection may be refused by round off)
            try:
                I = p.get_edge_intersection(a, b)
            except RuntimeError:
                ctx.saw('end on plane refused')
                continue
            ctx.close('intersection', I, a, 1e-6 * s, msg + ' edge ending on the plane')
            continue
        t = (c - a @ n) / (b @ n - a @ n)
        ctx.close('intersection', p.get_edge_intersection(a, b), a + t * (b - a), 1e-8 * (s + 30), msg + ' edge intersection')
        far = b + 2 * (c - b @ n) * n * rng.uniform(1.01, 3)
        try:
            p.get_edge_intersection(a, far)
            ok = False
        except RuntimeError:
            ok = True
        ctx.check('intersection-refused', ok, msg + ' an edge on one side gives an intersection')


def run(ctx):
    from meshmagick.mesh import Plane
    rng = ctx.rng
    n = any_normal(rng)
    c = float(rng.choice([0., rng.uniform(-1, 1), rng.uniform(-100, 100)]))
    given = [n.tolist(), tuple(n.tolist()), n.copy()][rng.integers(3)]
    p = Plane(given, c) if rng.random() < .7 else Plane(normal=given, scalar=c, name='deck')
    ctx.check('argument-kept', list(given) == list(n), 'the normal given was changed')
    n = n / np.linalg.norm(n)
    k = int(rng.integers(12))
    if k == 0:                                           # documented defaults: the horizontal plane through the origin
        n, c, p = np.array([0., 0., 1.]), 0., Plane()
    elif k == 1:
        n, p = np.array([0., 0., 1.]), Plane(scalar=c)
    elif k == 2:
        c, p = 0., Plane(n.copy())
    hist = ['Plane(%s,%g)' % (n, c)]
    judge(ctx, p, n, c, hist[0])
    for _ in range(int(rng.integers(0, 6))):
        k = int(rng.integers(6))
        if k == 5:
            # turned about its crossing with the Oz axis then moved along its new normal: defined from a horizontal plane or
            # from a plane through the origin
            if rng.random() < .5:
                n, c = np.array([0., 0., 1.]), c
                p.normal = n
            else:
                c = 0.
                p.c = c
            tx, ty = rng.choice([0., rng.uniform(-1.5, 1.5), 10. ** rng.uniform(-9, -3)], 2)
            s = float(rng.uniform(-10, 10))
            p.set_plane_parameters(s, tx, ty)
            n, c = rodrigues(tx, ty) @ n, c * np.cos(np.hypot(tx, ty)) + s
            hist.append('set_plane_parameters')
            ctx.close('set_plane_parameters', p.c, c, 1e-9 * (1 + abs(c)), 'set_plane_parameters(%g,%g,%g)' % (s, tx, ty))
        elif k == 0:
            n = any_normal(rng)
            p.normal = n.tolist() if rng.random() < .5 else n.copy()
            n = n / np.linalg.norm(n)
            hist.append('normal=')
        elif k == 1:
            c = float(rng.uniform(-10, 10))
            p.c = c
            hist.append('c=')
        elif k == 2:
            tx, ty = rng.choice([0., np.pi / 2, rng.uniform(-3, 3)], 2)
            p.rotate_normal(tx, ty)
            n = rodrigues(tx, ty) @ n
            hist.append('rotate_normal')
            ctx.close('rotate_normal', p.normal, n, 1e-9, 'rotate_normal(%g,%g)' % (tx, ty))
        elif k == 3:
            tx, ty = rng.choice([0., np.pi / 2, rng.uniform(-2, 2)], 2)
            p.set_normal_from_angles(tx, ty)
            n = rodrigues(tx, ty) @ [0., 0., 1.]
            hist.append('set_normal_from_angles')
            ctx.close('angles', p.normal, n, 1e-9, 'set_normal_from_angles(%g,%g)' % (tx, ty))
        else:
            q = rng.normal(size=(4, 3))
            d = np.array(p.get_point_dist_wrt_plane(q))
            p.flip_normal()
            n, c = -n, -c
            hist.append('flip_normal')
            ctx.close('flip', p.get_point_dist_wrt_plane(q), -d, 1e-9 * (1 + abs(c)), 'flip_normal: signed distances')
        judge(ctx, p, n, c, ' '.join(hist[-4:]))
    got = [float(x) for x in re.findall(r'-?\d+\.\d+', str(p))]
    ctx.check('text', len(got) == 4 and np.allclose(got, np.append(p.normal, p.c), rtol=0, atol=1e-6), 'printed as %s, is %s %s' % (
        p, p.normal, p.c))
    ctx.distinct(n, c, hist)
    ctx.sample = {'history': hist, 'normal': n, 'c': c}
