"""C16: rigid body inertia: transport between points, printed form, and catalogue of shapes."""
import re

import numpy as np
from mon import geom

PROP = 'C16'
LEVEL = 'exploration'
RULE = ('Bodies made of random point masses (so that inertia about any point is known by direct summation) driven through '
        'histories of reduction point changes, shifts to the centre of gravity, copies at the centre of gravity and cog '
        'changes; every shape of the catalogue against numerical quadrature of the shape itself, for random dimensions.')
ASSUMPTIONS = ['The axes of a catalogue shape are those of its documentation, or, when it has none, of its own formula; '
               'products of inertia of the right-angle wedge are not judged (the catalogue gives principal-like diagonals).']
REQUIRED = ('transport', 'transport-from-point', 'at_cog-pure', 'mass-cog', 'products', 'shape', 'shape-mass', 'density', 'printed', 'default')

N = {'quick': 2600, 'thorough': 5000}


def cases(tier, seed):
    out = [('transport', i, {}) for i in range(N[tier])]
    out += [('shape', i, {'shape': k}) for i in range(max(2, N[tier] // 40)) for k in sorted(SHAPES)]
    return [(k, i, p) for i, (k, _, p) in enumerate(out)]


def cloud(rng):
    k = int(rng.integers(2, 8))
    P = rng.normal(size=(k, 3)) * 10 ** rng.uniform(-1, 2) + rng.normal(size=3) * 10 ** rng.uniform(-1, 2)
    w = 10 ** rng.uniform(-1, 4, k)
    return P, w


def about(P, w, q):
    X = P - q
    m2 = np.einsum('n,ni,nj->ij', w, X, X)
    return geom.inertia_from_moments(m2)


def body(P, w, point):
    from meshmagick.inertia import RigidBodyInertia
    g = (w[:, None] * P).sum(axis=0) / w.sum()
    I = about(P, w, g if point is None else point)
    args = (w.sum(), g, I[0, 0], I[1, 1], I[2, 2], -I[1, 2], -I[0, 2], -I[0, 1])
    return (RigidBodyInertia(*args) if point is None else RigidBodyInertia(*args, point=point)), g


def near(rng, g):
    """A point sharing some coordinates (or all but the last bit of them) with the centre of gravity."""
    q = g.copy()
    k = rng.permutation(3)[:int(rng.integers(1, 4))]
    if rng.random() < .5:
        q[k] = rng.normal(size=len(k)) * 10 ** rng.uniform(-6, 2) + rng.choice([0., 1.]) * g[k]
    else:
        q[k] = g[k] + rng.choice([-1., 1.], len(k)) * 10 ** rng.uniform(-7, 3, len(k))
    return q


def printed(ctx, I, hist):
    """The text states the figures the object answers."""
    t = str(I)
    num = [float(x) for x in re.findall(r'[-+]?\d\.\d{6}E[-+]\d+', t)]
    want = np.concatenate([[I.mass], I.gravity_center, I.reduction_point, np.ravel(I.inertia_matrix)])
    if not ctx.check('printed', len(num) == 16, 'the text does not hold 16 figures: %r' % t[:300]):
        return
    ctx.check('printed', np.all(np.abs(np.array(num) - want) <= 1e-6 * np.abs(want) + 1e-300),
              'printed %r for %r, %r' % (num, want.tolist(), hist))


def h(m, d):
    return m * (d @ d * np.eye(3) - np.outer(d, d))


def run(ctx):
    if ctx.kind == 'shape':
        return shape(ctx)
    rng = ctx.rng
    P, w = cloud(rng)
    m = w.sum()
    g0 = (w[:, None] * P).sum(axis=0) / m
    point = None if rng.random() < .5 else rng.normal(size=3) * 10 ** rng.uniform(-1, 2)
    if point is not None and rng.random() < .3:
        point = g0.copy()
    elif point is not None and rng.random() < .4:
        point = near(rng, g0)
    I, g = body(P, w, list(point) if point is not None and rng.random() < .5 else point)
    ref = g if point is None else np.asarray(point, float)
    exact = True                   # the object still holds the true inertia about ref
    model = about(P, w, ref)
    s = max(geom.size(P), np.abs(ref).max())
    ctx.distinct(P, w, ref)
    ctx.saw('reduced at cog' if np.all(ref == g) else 'reduced elsewhere')
    M = np.array(I.inertia_matrix)
    ctx.close('products', [I.xx, I.yy, I.zz, I.yz, I.xz, I.xy], [M[0, 0], M[1, 1], M[2, 2], -M[1, 2], -M[0, 2], -M[0, 1]], 0.,
              'terms and matrix')
    ctx.close('products', M, model, 1e-12 * m * s * s, 'matrix at construction')
    ctx.sample = {'points': P, 'masses': w, 'point': ref}
    hist = []
    printed(ctx, I, hist)
    ctx.check('at_cog-pure', bool(I.is_at_cog()) == bool(np.all(ref == g)), 'is_at_cog at construction')
    tol = 1e-11 * m * s * s
    for step in range(int(rng.integers(1, 6))):
        op = ['at_cog', 'shift', 'point', 'point_cog'][rng.integers(4)]
        hist.append(op)
        away = bool(np.any(ref != g))
        oracle = 'transport-from-point' if away else 'transport'
        before = np.array(I.inertia_matrix)
        if op == 'at_cog':
            J = I.at_cog
            judge(ctx, oracle, J, g, model, ref, m, g, tol, hist)
            ctx.check('at_cog-pure', J is not I and np.array_equal(I.inertia_matrix, before) and
                      np.array_equal(I.reduction_point, ref) and J.inertia_matrix is not I.inertia_matrix,
                      'at_cog changed the object, %r' % hist)
            ctx.check('at_cog-pure', bool(J.is_at_cog()) and bool(I.is_at_cog()) == (not away), 'is_at_cog, %r' % hist)
            continue
        if op == 'shift':
            q = g
            I.shift_at_cog()
        else:
            q = (g.copy() if op == 'point_cog' else near(rng, g) if rng.random() < .4 else
                 np.zeros(3) if rng.random() < .1 else rng.normal(size=3) * 10 ** rng.uniform(-1, 2))
            tol = max(tol, 1e-11 * m * (s + np.abs(q).max()) ** 2)
            I.reduction_point = q if rng.random() < .5 else tuple(q)
        ok = judge(ctx, oracle, I, q, model, ref, m, g, tol, hist)
        ctx.equal('mass-cog', I.reduction_point, q, 'reduction point')
        ctx.check('mass-cog', I.mass == m and np.array_equal(I.gravity_center, g), 'mass or cog changed, %r' % hist)
        ctx.check('at_cog-pure', bool(I.is_at_cog()) == bool(np.all(q == g)), 'is_at_cog, %r' % hist)
        printed(ctx, I, hist)
        ref = np.array(q, float)
        model = about(P, w, ref) if ok else np.array(I.inertia_matrix)
        if not ok:
            break
    from meshmagick.inertia import RotationalInertia3D
    t = rng.normal(size=6) * 10 ** rng.uniform(-2, 3)
    ctx.equal('products', RotationalInertia3D(*t, point=[0, 0, 0]).array, [[t[0], -t[1], -t[3]], [-t[1], t[2], -t[4]], [-t[3], -t[4], t[5]]],
              'full matrix from xx, xy, yy, xz, yz, zz')
    c = rng.normal(size=3)
    before = np.array(I.inertia_matrix)
    I.set_cog(list(c))
    ctx.check('mass-cog', np.array_equal(I.gravity_center, c) and I.mass == m and np.array_equal(I.inertia_matrix, before) and
              np.array_equal(I.reduction_point, ref), 'set_cog changed something else')


def judge(ctx, oracle, J, q, model, ref, m, g, tol, hist):
    """J must hold the inertia about q, knowing the inertia `model` about ref."""
    want = model - h(m, g - ref) + h(m, g - q)
    got = np.array(J.inertia_matrix)
    mech = None
    if np.any(ref != g) and hist[-1] == 'shift':
        # what shift_at_cog computes: it adds the transport term where it must be subtracted
        wrong = model + h(m, g - ref) + h(m, g - q)
        if np.all(np.abs(got - wrong) <= tol):
            mech = 'huygens-sign'
    return ctx.close(oracle, got, want, tol, 'inertia moved from %s to %s, %r' % (ref, q, hist), mech)


# --- catalogue: sampled second moments about the centre of gravity --------------------------------------------------
def gl(n, a, b):
    x, w = np.polynomial.legendre.leggauss(n)
    return (b - a) / 2 * x + (a + b) / 2, w * (b - a) / 2


def solid_rev(r2, z0, z1, hole=None, n=40):
    """Solid of revolution about z, radius^2 = r2(z): mass, cog z, and (xx, yy, zz) about the cog."""
    z, w = gl(n, z0, z1)
    R2 = r2(z)
    H2 = hole(z) if hole else np.zeros_like(z)
    A = np.pi * (R2 - H2)
    Ip = np.pi * (R2 ** 2 - H2 ** 2) / 4          # int x^2 over the slice
    m = (w * A).sum()
    zg = (w * A * z).sum() / m
    zz2 = (w * A * (z - zg) ** 2).sum()
    x2 = (w * Ip).sum()
    return m, np.array([x2 + zz2, x2 + zz2, 2 * x2])


def surf_rev(curves, n=60):
    """Shell of revolution; curves: list of (r(t), z(t), t0, t1, dr, dz)."""
    M = Z = 0.
    acc = []
    for r, z, a, b, dr, dz in curves:
        t, w = gl(n, a, b)
        ds = w * np.sqrt(dr(t) ** 2 + dz(t) ** 2) * 2 * np.pi * r(t)
        acc.append((ds, r(t), z(t)))
        M += ds.sum()
        Z += (ds * z(t)).sum()
    zg = Z / M
    x2 = sum((d * r * r / 2).sum() for d, r, z in acc)
    z2 = sum((d * (z - zg) ** 2).sum() for d, r, z in acc)
    return M, np.array([x2 + z2, x2 + z2, 2 * x2])


def line(r0, z0, r1, z1):
    return (lambda t: r0 + t * (r1 - r0), lambda t: z0 + t * (z1 - z0), 0., 1., lambda t: r1 - r0 + 0 * t, lambda t: z1 - z0 + 0 * t)


def arc(R, a, b):
    return (lambda t: R * np.cos(t), lambda t: R * np.sin(t), a, b, lambda t: -R * np.sin(t), lambda t: R * np.cos(t))


def poly(V, F):
    v, m1, m2 = geom.volume_moments(V, F)
    c = m1 / v
    m2 = m2 - v * np.outer(c, c)
    I = geom.inertia_from_moments(m2)
    return v, np.diag(I)


def hull(V):
    from scipy.spatial import ConvexHull
    V = np.array(V, float)
    H = ConvexHull(V)
    F = H.simplices.copy()
    c = V.mean(axis=0)
    a = np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]])
    fl = np.einsum('ij,ij->i', a, V[F].mean(axis=1) - c) < 0
    F[fl] = F[fl][:, ::-1]
    return poly(V, np.column_stack([F, F[:, 0]]))


def prism_xz(pts, L):
    return hull([(x, y, z) for x, z in pts for y in (-L / 2, L / 2)])


def d_torus(R, r):
    # about y: solid of revolution around its axis, then permuted
    m, I = solid_rev(lambda z: (R + np.sqrt(r * r - z * z)) ** 2, -r, r, lambda z: (R - np.sqrt(r * r - z * z)) ** 2, 400)
    return m, I[[0, 2, 1]]


def d_ellipsoid(a, b, c):
    z, w = gl(40, -a, a)
    k = 1 - (z / a) ** 2
    A = np.pi * b * c * k
    m = (w * A).sum()
    x2, y2, z2 = (w * A * k * b * b / 4).sum(), (w * A * k * c * c / 4).sum(), (w * A * z * z).sum()
    return m, np.array([y2 + z2, x2 + z2, x2 + y2])


def d_ellcyl(a, b, L):
    m = np.pi * a * b * L
    x2, y2, z2 = m * a * a / 4, m * b * b / 4, m * L * L / 12
    return m, np.array([y2 + z2, x2 + z2, x2 + y2])


SHAPES = {
    # name: (number of dimensions, reference, shell, ordered dimensions, relative tolerance)
    'right_circular_cylinder': (2, lambda R, L: solid_rev(lambda z: R * R + 0 * z, 0, L), False, False, 1e-9),
    'hollow_right_circular_cylinder': (3, lambda r, R, L: solid_rev(lambda z: R * R + 0 * z, 0, L, lambda z: r * r + 0 * z), False, True, 1e-9),
    'right_circular_cone': (2, lambda R, L: solid_rev(lambda z: (R * (1 - z / L)) ** 2, 0, L), False, False, 1e-9),
    'sphere': (1, lambda R: solid_rev(lambda z: R * R - z * z, -R, R), False, False, 1e-9),
    'hollow_sphere': (2, lambda r, R: tuple(np.subtract(a, b) for a, b in zip(
        solid_rev(lambda z: R * R - z * z, -R, R), solid_rev(lambda z: r * r - z * z, -r, r))), False, True, 1e-8),
    'hemisphere': (1, lambda R: solid_rev(lambda z: R * R - z * z, 0, R), False, False, 1e-9),
    'elliptical_cylinder': (3, d_ellcyl, False, False, 1e-9),
    'ellipsoid': (3, d_ellipsoid, False, False, 1e-9),
    'torus': (2, lambda R, r: d_torus(R, r), False, 'rev', 1e-6),
    'right_angle_wedge': (3, lambda b, h_, L: prism_xz([(0, 0), (b, 0), (0, h_)], L), False, False, 1e-9),
    'isoceles_wedge': (3, lambda b, h_, L: prism_xz([(-b / 2, 0), (b / 2, 0), (0, h_)], L), False, False, 1e-9),
    'right_rectangular_pyramid': (3, lambda a, b, H: hull([(x, y, 0) for x in (-a / 2, a / 2) for y in (-b / 2, b / 2)] + [(0, 0, H)]), False, False, 1e-9),
    'cube': (1, lambda a: hull([(x, y, z) for x in (0, a) for y in (0, a) for z in (0, a)]), False, False, 1e-9),
    'rectangular_prism': (3, lambda a, b, c: hull([(x, y, z) for x in (0, a) for y in (0, b) for z in (0, c)]), False, False, 1e-9),
    'circular_cone_shell': (2, lambda R, H: surf_rev([line(R, 0, 0, H)]), True, False, 1e-9),
    'frustrum_of_circular_cone_shell': (3, lambda r, R, H: surf_rev([line(R, 0, r, H)]), True, False, 1e-9),
    'lateral_cylindrical_shell': (2, lambda R, H: surf_rev([line(R, 0, R, H)]), True, False, 1e-9),
    'total_cylindrical_shell': (2, lambda R, H: surf_rev([line(R, 0, R, H), line(0, 0, R, 0), line(R, H, 0, H)]), True, False, 1e-9),
    'spherical_shell': (1, lambda R: surf_rev([arc(R, -np.pi / 2, np.pi / 2)]), True, False, 1e-9),
    'hemispherical_shell': (1, lambda R: surf_rev([arc(R, 0, np.pi / 2)]), True, False, 1e-9),
}


def shape(ctx):
    from meshmagick import inertia
    rng = ctx.rng
    name = ctx.params['shape']
    n, ref, shell, ordered, rtol = SHAPES[name]
    dims = 10 ** rng.uniform(-1, 2, n)
    if ordered:
        dims[:2] = np.sort(dims[:2])
        dims[1] *= 1.05
        if ordered == 'rev':
            dims = dims[::-1]
    dims = [float(d) for d in dims]
    rho, th = float(10 ** rng.uniform(-1, 4)), float(10 ** rng.uniform(-3, -1))
    f = getattr(inertia, name)
    I = f(*dims, density=rho, thickness=th) if shell else f(*dims, density=rho)
    k = rho * th if shell else rho
    m, d = ref(*dims)
    m, d = k * float(m), k * np.asarray(d)
    ctx.distinct(name, dims, rho)
    ctx.saw(name)
    ctx.sample = {'shape': name, 'dims': dims, 'mass': m, 'diagonal': d}
    ctx.close('shape-mass', I.mass, m, rtol * m, '%s%r: mass' % (name, dims))
    ctx.close('shape', [I.xx, I.yy, I.zz], d, rtol * d.max(), '%s%r: inertia about the centre of gravity' % (name, dims))
    ctx.check('shape', bool(I.is_at_cog()), name + ': not reduced at the centre of gravity')
    if name != 'right_angle_wedge':
        ctx.close('products', [I.xy, I.xz, I.yz], [0, 0, 0], 0., name + ': products of inertia')
    J = f(*dims, density=3 * rho, thickness=2 * th) if shell else f(*dims, density=3 * rho)
    c = 6. if shell else 3.
    ctx.close('density', [J.mass, J.xx, J.yy, J.zz], np.array([I.mass, I.xx, I.yy, I.zz]) * c, 1e-12 * c * max(I.mass, d.max()),
              name + ': not linear with the density')
    # called without them, density and thickness are those of the signature
    J0 = f(*dims)
    k0 = 7850. * .02 if shell else 1.
    ctx.close('default', [J0.mass, J0.xx, J0.yy, J0.zz], np.array([I.mass, I.xx, I.yy, I.zz]) * (k0 / k), 1e-11 * max(m, d.max()) * k0 / k,
              name + ': default density')
    J0 = f(*dims, rho, th) if shell else f(*dims, rho)
    ctx.close('density', [J0.mass, J0.xx, J0.yy, J0.zz], [I.mass, I.xx, I.yy, I.zz], 0., name + ': positional density')
    q = rng.normal(size=3) * 10
    I.reduction_point = q
    ctx.close('transport', I.inertia_matrix, np.diag([J.xx, J.yy, J.zz]) / c + h(m, q), rtol * (d.max() + m * (q @ q)), name + ': transport')
