"""C25: frame conditions: what may change and what must not."""
import copy
import hashlib
import io
import contextlib
import os
import numpy as np
from mon import gens, geom, probe
from mon.checks import c01, c19, c20, c21

PROP = 'C25'
LEVEL = 'exploration'
RULE = ('A pool of live objects (arrays, meshes, planes, clippers, inertias, hydrostatic data), on which random public operations are applied: queries, computations, copies, '
        'sums, extractions, clippings, writers, and operations documented to modify one object.  After every call, also one that raises, a '
        'digest of every object of the pool is compared: only the documented one may have changed.  Pure calls are repeated, at once and at the end of the '
        'history, and must answer alike.')
ASSUMPTIONS = ['Answers repeated on the same state may differ by a relative 1e-9, and derived quantities of every live mesh are compared with those of its present arrays.',
               'Arrays that the caller itself modifies after handing them over are not judged, except those of meshes.']
REQUIRED = ('arguments', 'other-objects', 'repeat', 'replay', 'answers', 'raises', 'independent', 'rotations', 'writers', 'hydrostatics', 'merge-rows')
N = {'quick': 300, 'thorough': 1600}


def preload():
    import vtk  # noqa
    vtk.vtkObject.GlobalWarningDisplayOff()


def cases(tier, seed):
    n = N[tier]
    return ([('pool', k, {}) for k in range(n)] + [('rotations', k, {}) for k in range(n // 4)] + [('writers', k, {}) for k in range(n // 2)] +
            [('hydro', k, {}) for k in range(n // 3)] + [('rows', k, {}) for k in range(n // 4)] + [('ctor', k, {}) for k in range(n // 4)])


def dig(x):
    """Hashable digest of a value, exact."""
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.inertia import RigidBodyInertia
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return tuple(dig(y) for y in x.ravel())
        return ('a', x.shape, x.dtype.str, hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest())
    if isinstance(x, Mesh):
        return ('m', dig(np.asarray(x.vertices)), dig(np.asarray(x.faces)), x.name)
    if isinstance(x, Plane):
        return ('p', dig(np.array(x.normal)), float(x.c), dig(np.array(x.coord_in_plane(np.eye(3)))))
    if isinstance(x, RigidBodyInertia):
        return ('i', float(x.mass), dig(np.array(x.gravity_center)), dig(np.array(x.reduction_point)), dig(np.array(x.inertia_matrix)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(dig(y) for y in x)
    if isinstance(x, dict):
        return ('d',) + tuple(sorted((repr(k), dig(y)) for k, y in x.items()))
    if isinstance(x, (set, frozenset)):
        return ('s',) + tuple(sorted(map(repr, x)))
    if isinstance(x, (bool, int, float, str, type(None), np.generic, bytes)):
        return repr(x)
    return type(x).__name__


def flat(x):
    """Plain data to compare two answers with a tolerance: (structure, numbers)."""
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.inertia import RigidBodyInertia
    if isinstance(x, Mesh):
        return flat([np.asarray(x.vertices), np.asarray(x.faces)])
    if isinstance(x, Plane):
        return flat([np.array(x.normal), x.c])
    if isinstance(x, RigidBodyInertia):
        return flat([x.mass, np.array(x.gravity_center), np.array(x.reduction_point), np.array(x.inertia_matrix)])
    if isinstance(x, dict):
        ks = sorted(x, key=repr)
        s, n = flat([x[k] for k in ks])
        return (tuple(map(repr, ks)), s), n
    if isinstance(x, (set, frozenset)):
        return tuple(sorted(map(repr, x))), []
    if isinstance(x, np.ndarray) and x.dtype != object:
        return ('a', x.shape), [np.asarray(x, float).ravel()]
    if isinstance(x, (list, tuple, np.ndarray)):
        r = [flat(y) for y in x]
        return tuple(s for s, _ in r), [v for _, n in r for v in n]
    if isinstance(x, (bool, str, type(None), bytes, np.bool_)):
        return repr(x), []
    if isinstance(x, (int, float, np.generic)):
        return 'n', [np.array([float(x)])]
    return type(x).__name__, []


def alike(a, b):
    (s, n), (t, m) = flat(a), flat(b)
    if s != t or len(n) != len(m):
        return False
    for u, v in zip(n, m):
        if not np.allclose(u, v, rtol=1e-9, atol=1e-9 * (np.abs(u).max() if len(u) else 0), equal_nan=True):
            return False
    return True


def call(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return 'ok', f(*a, **k)
        except (RuntimeError, AssertionError, ValueError, IndexError, ZeroDivisionError, NotImplementedError, OSError) as exc:
            return 'exc', type(exc).__name__


def run(ctx):
    return globals()['k_' + ctx.kind](ctx)


MESH_Q = sorted(probe.QUERIES)


def clip_info(m, p, tol):
    from meshmagick.mesh_clipper import MeshClipper
    c = MeshClipper(m, p, vicinity_tol=tol)
    return c, [c.lower_mesh, c.upper_mesh, c.crown_mesh, c.clipped_crown_mesh, c.clipped_mesh, c.closed_polygons, c.open_lines, c.closed_polygons_vertices, c.open_lines_vertices]


def make_pure(rng, pool):
    """(name, function, arguments among the pool or fresh, objects made by the call that join the pool)."""
    from meshmagick.mesh import Mesh
    meshes = [o for o in pool if isinstance(o, Mesh)]
    planes = [o for o in pool if type(o).__name__ == 'Plane']
    inert = [o for o in pool if type(o).__name__ == 'RigidBodyInertia']
    m = meshes[rng.integers(len(meshes))]
    p = planes[rng.integers(len(planes))]
    k = int(rng.integers(18))
    if k == 16:
        return make_built(rng, pool)
    if k < 4:
        q = MESH_Q[rng.integers(len(MESH_Q))]
        return 'query ' + q, probe.QUERIES[q][0], [m], False
    if k == 4:
        return 'copy', lambda x: x.copy(), [m], True
    if k == 5:
        return 'add', lambda x, y: x + y, [m, meshes[rng.integers(len(meshes))]], True
    if k == 6:
        ids = rng.permutation(m.nb_faces)[:int(rng.integers(1, m.nb_faces + 1))]
        ids = ids if rng.random() < .6 else [int(i) for i in ids]
        if rng.random() < .5:
            return 'extract_faces', lambda x, i: x.extract_faces(i), [m, ids], True
        return 'extract_faces index', lambda x, i: list(x.extract_faces(i, return_index=True)), [m, ids], False
    if k == 7:
        return 'plain inertia', lambda x, r: x.eval_plain_mesh_inertias(r), [m, 1025.], True
    if k == 8:
        return 'shell inertia', lambda x, r, t: x.eval_shell_mesh_inertias(r, t), [m, 7850., .02], True
    if k in (9, 10):
        tol = float(rng.choice([1e-3, 1e-6, .1]))
        if rng.random() < .5:
            return 'clip', lambda x, y, t: clip_info(x, y, t)[1], [m, p, tol], False
        return 'clipped mesh', lambda x, y, t: clip_info(x, y, t)[0].clipped_mesh, [m, p, tol], True
    if k == 11:
        i = int(rng.integers(m.nb_faces))
        return 'face', lambda x, j: [np.array(x.get_face(j)), bool(x.is_triangle(j)), str(x)], [m, i], False
    if k in (12, 13):
        pts = rng.normal(size=(4, 3))
        f = [lambda y, q: y.get_point_dist_wrt_plane(q), lambda y, q: y.coord_in_plane(q), lambda y, q: y.orthogonal_projection_on_plane(q),
             lambda y, q: [y.get_origin(), str(y), np.array(y.get_normal_orientation_wrt_z())], lambda y, q: y.get_edge_intersection(q[0], q[1])][int(rng.integers(5))]
        return 'plane query', f, [p, pts], False
    if k == 14 and inert:
        i = inert[rng.integers(len(inert))]
        return 'at_cog', lambda x: x.at_cog, [i], True
    if inert:
        i = inert[rng.integers(len(inert))]
        return 'inertia query', lambda x: [x.xx, x.yy, x.zz, x.xy, x.xz, x.yz, bool(x.is_at_cog()), str(x)], [i], False
    return 'conformal', lambda x: x.is_mesh_conformal(), [m], False


def make_built(rng, pool):
    """Objects built from arrays of the caller."""
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.inertia import RigidBodyInertia
    v = rng.normal(size=3) * 10. ** rng.uniform(-1, 1)
    k = int(rng.integers(4))
    if k == 0:
        return 'Plane()', lambda n, c: Plane(n, c), [v, float(rng.normal())], True
    if k == 1:
        return 'Plane().normal=', lambda n, w: [setattr(q, 'normal', w) or q for q in [Plane(n)]], [v, rng.normal(size=3) * 3], False
    if k == 2:
        w = rng.normal(size=3)
        return 'RigidBodyInertia()', lambda c, q: RigidBodyInertia(2., c, 5., 6., 7., .1, .2, .3, point=q), [v.tolist() if rng.random() < .3 else v, w], True
    m = [o for o in pool if isinstance(o, Mesh)][0]
    return 'Mesh()', lambda V, F: Mesh(V, F), [np.array(m.vertices), np.array(m.faces)], True


def make_change(rng, pool):
    """(name, target, function, arguments)."""
    from meshmagick.mesh import Mesh
    cand = [o for o in pool if isinstance(o, Mesh)]
    planes = [o for o in pool if type(o).__name__ == 'Plane']
    inert = [o for o in pool if type(o).__name__ == 'RigidBodyInertia']
    k = rng.random()
    m = cand[rng.integers(len(cand))]
    p = planes[rng.integers(len(planes))]
    if k < .2:
        f = int(rng.integers(6))
        a, b = rng.uniform(-1, 1, 2)
        n = rng.normal(size=3)
        if f == 0:
            return 'plane.normal=', p, lambda y, v: setattr(y, 'normal', v), [n if rng.random() < .5 else n.tolist()]
        if f == 1:
            return 'plane.c=', p, lambda y, v: setattr(y, 'c', v), [float(a)]
        if f == 2:
            return 'flip_normal', p, lambda y: y.flip_normal(), []
        if f == 3:
            return 'rotate_normal', p, lambda y, u, v: y.rotate_normal(u, v), [a, b]
        if f == 4:
            return 'set_normal_from_angles', p, lambda y, u, v: y.set_normal_from_angles(u, v), [a, b]
        return 'set_plane_parameters', p, lambda y, s, u, v: y.set_plane_parameters(s, u, v), [.1, a, b]
    if k < .35 and inert:
        i = inert[rng.integers(len(inert))]
        v = rng.normal(size=3)
        f = int(rng.integers(3))
        if f == 0:
            return 'reduction_point=', i, lambda x, q: setattr(x, 'reduction_point', q), [v if rng.random() < .5 else v.tolist()]
        if f == 1:
            return 'set_cog', i, lambda x, q: x.set_cog(q), [v]
        return 'shift_at_cog', i, lambda x: x.shift_at_cog(), []
    f = int(rng.integers(10))
    if f == 0:
        return 'rotate_matrix', m, lambda x, R: x.rotate_matrix(R), [geom.rot_axis_angle(rng.normal(size=3), 1.)]
    if f == 1:
        return 'translate', m, lambda x, t: x.translate(t), [rng.normal(size=3)]
    if f == 2:
        return 'rotate', m, lambda x, t: x.rotate(t), [rng.normal(size=3)]
    if f == 3:
        return 'mirror', m, lambda x, y: x.mirror(y), [p]
    if f == 4 and m.nb_faces < 250:
        return 'symmetrize', m, lambda x, y: x.symmetrize(y), [p]
    if f == 5:
        V = np.array(m.vertices) + .01 * rng.normal(size=m.vertices.shape)
        return 'vertices=', m, lambda x, v: setattr(x, 'vertices', v), [V]
    if f == 6:
        G = np.array(m.faces)[rng.permutation(m.nb_faces)]
        return 'faces=', m, lambda x, v: setattr(x, 'faces', v), [G]
    name = str(rng.choice([o for o in c01.OPS if o not in ('copy', 'add', 'extract_faces', 'symmetrize', 'mirror', 'set_vertices', 'set_faces')]))
    d, op = c01.OPS[name](m, rng)
    return d, m, op, []


def k_pool(ctx):
    from meshmagick.mesh import Mesh, Plane
    rng = ctx.rng
    V, F, d = c01.start_mesh(rng)
    while len(F) > 300:
        V, F, d = c01.start_mesh(rng)
    V, F = np.array(V, float), np.array(F, int)
    W, G, _ = gens.solid(rng)
    given = [V, F, np.array(W), np.array(G)]
    pool = given + [Mesh(V, F), Mesh(given[2], given[3], 'second'), Plane(), Plane(rng.normal(size=3), rng.normal() * .2)]
    pool += [pool[4].copy()]
    ctx.sample = {'mesh': d, 'calls': []}
    ctx.distinct(V, F)
    done = []
    before = [dig(o) for o in pool]

    def compare(name, allowed, status):
        nonlocal before
        after = [dig(o) for o in pool]
        for o, a, b in zip(pool, before, after):
            if a != b and o is not allowed:
                ctx.check('raises' if status == 'exc' else 'other-objects', False, '%s (%s): %s is changed' % (name, status, type(o).__name__))
                break
        else:
            ctx.check('raises' if status == 'exc' else 'other-objects', True)
        before = after

    for _ in range(30 if ctx.tier == 'quick' else 45):
        if rng.random() < .6 or len(pool) > 16:
            name, f, args, keep = make_pure(rng, pool)
            extra = [dig(a) for a in args]
            st, r = call(f, *args)
            ctx.check('arguments', [dig(a) for a in args] == extra, name + ': an argument is modified')
            compare(name, None, st)
            if rng.random() < .4:
                s2, r2 = call(f, *args)
                ctx.check('repeat', s2 == st and (st == 'exc' and r == r2 or alike(r, r2)), name + ': another answer the second time')
            if rng.random() < .5:
                done.append((name, f, copy.deepcopy(args[1:]) if not any(isinstance(a, Mesh) or type(a).__name__ in ('Plane', 'RigidBodyInertia') for a in args[1:]) else args[1:],
                             args[0], [dig(a) for a in args], st, copy.deepcopy(r)))
            if keep and st == 'ok' and len(pool) < 16 and not (isinstance(r, Mesh) and (r.nb_faces == 0 or r.nb_faces > 500)):
                pool.append(r)
                before.append(dig(r))
        else:
            name, target, f, args = make_change(rng, pool)
            extra = [dig(a) for a in args]
            old = target.__dict__.get('_faces')
            st, r = call(f, target, *args)
            ctx.check('arguments', [dig(a) for a in args] == extra, name + ': an argument is modified')
            compare(name, target, st)
            # arrays handed to the mesh stay the caller's
            if name in ('vertices=', 'faces='):
                b = dig(target)
                args[0][:1] += 1
                ctx.check('independent', dig(target) == b, name + ': the mesh keeps the array it is given')
            if isinstance(target, Mesh) and target.nb_faces == 0:
                ctx.saw('emptied')
                break
        ctx.sample['calls'].append(name)
        ctx.saw(name.split('(')[0])
    # calls whose objects are as they were answer as they did
    rng.shuffle(done)
    for name, f, args, first, digs, st, r in done[:8]:
        if [dig(a) for a in [first] + list(args)] == digs:
            s2, r2 = call(f, first, *args)
            ctx.check('replay', s2 == st and (st == 'exc' and r == r2 or alike(r, r2)), name + ': another answer after unrelated operations')
    # what each live mesh answers is what its arrays imply
    for m in [o for o in pool if isinstance(o, Mesh)]:
        if m.nb_faces == 0:
            continue
        A = geom.face_areas(np.array(m.vertices), np.array(m.faces))
        if geom.planarity(m.vertices, m.faces) > 1e-9:
            ctx.saw('warped: not judged')
            continue
        if A.min() < 1e-9 * A.max():
            ctx.saw('degenerate faces: not judged')
            continue
        ctx.close('answers', np.array(m.faces_areas), A, 1e-8 * geom.size(m.vertices) ** 2, 'areas of a live mesh')
        ctx.close('answers', float(m.volume), geom.volume_moments(np.array(m.vertices), np.array(m.faces))[0], 1e-8 * geom.size(m.vertices) ** 3, 'volume of a live mesh')
        names = list(probe.QUERIES)
        rng.shuffle(names)
        c01.compare(ctx, m, names[:12], 'answers', ctx.sample['calls'])


def k_ctor(ctx):
    """A mesh does not share its arrays with its caller, nor with its copies, sums and parts."""
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    V, F, d = gens.solid(rng)
    V, F = np.array(V, float), np.array(F, int)
    if rng.random() < .3:
        V, F = np.asfortranarray(V), np.asfortranarray(F)
    m = Mesh(V, F)
    ctx.distinct(V, F)
    ctx.sample = {'mesh': d}
    m.faces_areas, m.vv, m.volume
    v0, f0 = V.copy(), F.copy()
    parts = {'copy': m.copy(), 'sum': m + Mesh(V + 9, F), 'part': m.extract_faces(np.arange(m.nb_faces))}
    ref = {k: dig(x) for k, x in parts.items()}
    for name in ('translate', 'scale', 'flip_normals', 'rotate'):
        getattr(m, name)(*{'translate': ([1., 2., 3.],), 'scale': (2.,), 'flip_normals': (), 'rotate': ([.1, .2, .3],)}[name])
        ctx.check('independent', np.array_equal(V, v0) and np.array_equal(F, f0), name + ': the arrays given to the constructor are modified')
        for k, x in parts.items():
            ctx.check('independent', dig(x) == ref[k], '%s of the mesh modifies its %s' % (name, k))
    b = dig(m)
    for k, x in parts.items():
        x.translate([1., 1., 1.])
        x.flip_normals()
        x.scalex(3.)
        ctx.check('independent', dig(m) == b, 'operations on the %s modify the mesh' % k)
    V += 1.
    F[:] = F[:, ::-1]
    ctx.check('independent', dig(m) == b, 'the mesh shares the arrays of its caller')
    # direct changes of the arrays of a copy
    c = m.copy()
    c.vertices[:] += 1
    c.faces[0] = c.faces[0][::-1]
    ctx.check('independent', dig(m) == b, 'a copy shares the arrays of the mesh')
    A = geom.face_areas(np.array(m.vertices), np.array(m.faces))
    ctx.close('answers', np.array(m.faces_areas), A, 1e-8 * geom.size(m.vertices) ** 2, 'areas of a live mesh')
    for x in (m, parts['copy'], parts['sum'], parts['part']):
        c01.compare(ctx, x, sorted(probe.QUERIES), 'answers', [d, 'operations on the mesh, its copy, its sum and its part'])


def k_rotations(ctx):
    from meshmagick import rotations as ro
    rng = ctx.rng
    R = geom.rot_axis_angle(rng.normal(size=3), rng.uniform(-3, 3)) if rng.random() < .8 else np.eye(3)[rng.permutation(3)]
    if np.linalg.det(R) < 0:
        R = -R
    q = np.array(ro.rotmat_to_quat(R.copy()))
    ax = rng.normal(size=3)
    ax /= np.linalg.norm(ax)
    ang = float(rng.uniform(-3, 3))
    e = rng.uniform(-1.5, 1.5, 3)
    calls = [(ro.rotmat_to_quat, [R]), (ro.rotmat_to_cardan, [R]), (ro.rotmat_to_axis_angle, [R]), (ro.quat_to_rotmat, [q]), (ro.quat_to_cardan, [q]), (ro.quat_to_axis_angle, [q]),
             (ro.axis_angle_to_quat, [ax, ang]), (ro.axis_angle_to_rotmat, [ax, ang]), (ro.axis_angle_to_cardan, [ax, ang]), (ro.cardan_to_quat, list(e)),
             (ro.cardan_to_rotmat, list(e)), (ro.cardan_to_axis_angle, list(e)), (ro.is_unit_vector, [ax])]
    ctx.distinct(R, ax, e)
    ctx.sample = {'rotation': R}
    first = []
    order = [calls[i] for i in rng.permutation(len(calls))]
    for f, a in order:
        b = [dig(x) for x in a]
        r = call(f, *a)
        first.append((f, a, copy.deepcopy(r)))
        ctx.check('rotations', [dig(x) for x in a] == b, f.__name__ + ': its argument is modified')
        for x in r[1] if isinstance(r[1], tuple) else [r[1]]:      # the caller may use what it is given
            if isinstance(x, np.ndarray) and x.ndim:
                x *= 0
        ctx.check('rotations', [dig(x) for x in a] == b, f.__name__ + ': what it returns shares its argument')
    for f, a, r in first:
        ctx.check('rotations', alike(call(f, *a)[1], r[1]), f.__name__ + ': another answer the second time')


def k_writers(ctx):
    from meshmagick import mmio
    rng = ctx.rng
    V, F, d = c20.mesh(rng)[:3]
    V, F = np.array(V, float), np.array(F, int)
    if len(F) > 3000:
        F = F[:200]
    if rng.random() < .3:
        V, F = np.asfortranarray(V), np.asfortranarray(F)
    ctx.distinct(V, F)
    fmts = sorted(c20.FORMATS)
    ctx.sample = {'mesh': str(d)}
    a, b = dig(V), dig(F)
    ro = rng.random() < .3
    if ro:
        V.setflags(write=False)
        F.setflags(write=False)
    data = {}
    for fmt in [fmts[i] for i in rng.permutation(len(fmts))[:5]]:
        name = c20.FORMATS[fmt][0][0]
        for k in range(2):
            out = 'f%d.%s' % (k, name if fmt != 'dat' else 'DAT')
            st, r = call(mmio.write_mesh, out, V, F, name)
            ctx.check('writers', st == 'ok', '%s: %r%s' % (fmt, r, ' on read-only arrays' if ro else ''))
            ctx.check('writers', dig(V) == a and dig(F) == b, fmt + ': the mesh is modified by its writer')
            if st == 'ok' and os.path.isfile(out):
                data[k] = open(out, 'rb').read()
        if len(data) == 2 and fmt not in ('vtu', 'vtp', 'vtk', 'obj'):
            x, y = (data[k].replace(b'f%d' % k, b'f') for k in (0, 1))
            ctx.check('writers', x == y or b':' in x, fmt + ': another file the second time')
        for k in range(2):
            out = 'f%d.%s' % (k, name if fmt != 'dat' else 'DAT')
            if os.path.isfile(out):
                c = open(out, 'rb').read()
                r1, r2 = call(mmio.load_mesh, out, name), call(mmio.load_mesh, out, name)
                ctx.check('writers', open(out, 'rb').read() == c, fmt + ': the reader modifies the file')
                ctx.check('repeat', r1[0] == r2[0] and alike(r1[1], r2[1]), fmt + ': another mesh is read the second time')
                os.remove(out)
        ctx.saw(fmt)


def k_hydro(ctx):
    from meshmagick.mesh import Mesh
    from meshmagick import hydrostatics as hs
    rng = ctx.rng
    V, F, d = c19.ship(rng, True)
    total = geom.volume_moments(V, F)[0]
    v = total * float(rng.uniform(.3, .6))
    V = V + [0, 0, c19.solve(V, F, v)]
    m = Mesh(V, F, 'ship')
    if rng.random() < .5:
        m.faces_areas, m.vv
    h = geom.hydro(V, F)
    cog = h['cob'] + [0, 0, .02 * np.ptp(V[:, 1])]
    R = geom.rot_fixed(*(rng.uniform(-.05, .05, 3) * [1, 1, 0]))
    args = {'mesh': m, 'cog': cog, 'R': R}
    ctx.distinct(V, F)
    ctx.sample = {'hull': d}
    disp = 1025. * v / 1000.
    calls = {'compute': lambda: hs.compute_hydrostatics(m, cog, 1025., 9.81), 'compute at_cog': lambda: hs.compute_hydrostatics(m, cog, 1025., 9.81, at_cog=True),
             'compute corrected': lambda: hs.compute_hydrostatics(m, cog, 1025., 9.81, rotmat_corr=R, z_corr=.01), 'displacement': lambda: hs.displacement_equilibrium(m, disp * .9, 1025., 9.81),
             'displacement cog': lambda: hs.displacement_equilibrium(m, disp * .9, 1025., 9.81, cog=cog), 'full': lambda: hs.full_equilibrium(m, cog, disp, 1025., 9.81)}
    names = [str(x) for x in rng.permutation(sorted(calls))]
    res = {}
    data = []
    for n in names + names[::-1]:
        b = [dig(x) for x in args.values()] + [dig(x) for x in data]
        st, r = call(calls[n])
        ctx.check('hydrostatics', [dig(x) for x in args.values()] + [dig(x) for x in data] == b, '%s %s: an argument or an earlier result is modified' % (d, n))
        if n in res:
            ctx.check('hydrostatics', st == res[n][0] and alike(strip(r), strip(res[n][1])), '%s %s: another answer the second time' % (d, n))
        res[n] = (st, copy.deepcopy(r))
        if isinstance(r, dict):
            data.append(r)
            b = dig(r)
            s1, t1 = call(hs.get_hydrostatic_report, r)
            s2, t2 = call(hs.get_hydrostatic_report, r)
            ctx.check('hydrostatics', dig(r) == b and t1 == t2, '%s: the report modifies the data' % d)
    for r in data:                     # data are independent of the mesh
        b = dig(r)
        m2 = r['mesh']
        k = dig(m)
        m2.translate([1., 0., 0.])
        r['cog'] += 1.
        ctx.check('hydrostatics', dig(m) == k and dig(cog) == dig(args['cog']) and np.array_equal(cog, args['cog']), d + ': the data share the mesh or the arguments')
    ctx.check('hydrostatics', np.array_equal(cog, h['cob'] + [0, 0, .02 * np.ptp(V[:, 1])]), d + ': the data share the centre of gravity given')


def strip(r):
    return {k: x for k, x in r.items() if k != 'mesh'} if isinstance(r, dict) else r


def k_rows(ctx):
    from meshmagick.tools import merge_duplicate_rows
    rng = ctx.rng
    n = int(rng.integers(1, 60))
    X = rng.choice(rng.normal(size=6), size=(n, 3)) if rng.random() < .7 else rng.normal(size=(n, 3))
    a = dig(X)
    ctx.distinct(X)
    ctx.sample = {'rows': n}
    r1 = merge_duplicate_rows(X, return_index=True)
    k1 = copy.deepcopy(r1)
    ctx.check('merge-rows', dig(X) == a, 'the rows given are modified')
    r2 = merge_duplicate_rows(X, return_index=True)
    r3 = merge_duplicate_rows(X)
    ctx.check('merge-rows', dig(X) == a and alike(r1, k1) and alike(r1, r2) and alike(r1[0], r3), 'another answer the second time')
