"""C04: every conversion between rotation representations denotes the same rotation."""
import numpy as np
from mon import geom

PROP = 'C04'
LEVEL = 'exploration'
RULE = ('Random and special rotations (identity, tiny angles down to 1e-9, half turns about axes and random directions, exact '
        'and near gimbal lock, compositions with round-off) given in each representation and in several input types; the '
        'rotation matrix denoted by the output of every conversion is compared with the matrix denoted by its input.')
ASSUMPTIONS = ['Cardan angles denote Rz(psi).Ry(theta).Rx(phi).',
               'Accuracy demanded: 1e-10, and 2e-7 for angles returned near gimbal lock.']
REQUIRED = ('quat_to_axis_angle', 'axis_angle_to_quat', 'quat_to_rotmat', 'rotmat_to_quat', 'cardan_to_quat',
            'rotmat_to_cardan', 'cardan_to_rotmat', 'quat_to_cardan', 'rotmat_to_axis_angle', 'axis_angle_to_rotmat',
            'cardan_to_axis_angle', 'axis_angle_to_cardan', 'unit')

N = {'quick': 500, 'thorough': 4000}
PER = 40


def cases(tier, seed):
    return [('rotations', i, {}) for i in range(N[tier])]


def q2m(q):
    w, x, y, z = [float(c) for c in np.ravel(q)]
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def sample(rng):
    """axis, angle"""
    k = int(rng.integers(9))
    ax = rng.normal(size=3)
    if rng.random() < .3:
        ax = np.eye(3)[rng.integers(3)] * rng.choice([-1, 1])
    elif rng.random() < .2:
        ax[rng.integers(3)] = 0.
    ax = ax / np.linalg.norm(ax)
    if k == 0:
        return ax, 0.
    if k == 1:
        return ax, 10. ** rng.uniform(-9, -2)
    if k == 2:
        return ax, np.pi
    if k == 3:
        return ax, np.pi - 10. ** rng.uniform(-9, -2)
    if k == 4:
        return ax, rng.uniform(np.pi, 2 * np.pi)
    if k == 5:
        return ax, float(rng.choice([np.pi / 2, 2 * np.pi / 3, -np.pi / 2, 3 * np.pi / 2]))
    return ax, rng.uniform(-np.pi, np.pi)


def angles(rng):
    k = int(rng.integers(7))
    a = rng.uniform(-np.pi, np.pi, 3)
    if k == 0:
        a[1] = np.pi / 2 * rng.choice([-1, 1])
    elif k == 1:
        a[1] = (np.pi / 2 - 10. ** rng.uniform(-9, -2)) * rng.choice([-1, 1])
    elif k == 2:
        a = rng.choice([0., np.pi / 2, -np.pi / 2, np.pi, -np.pi, np.pi / 4], 3)
    elif k == 3:
        a *= 10. ** rng.uniform(-9, -1)
    elif k == 4:
        a *= 3
    elif k == 5:
        a[int(rng.integers(3))] = 0.
    return [float(x) for x in a]


def kinds(rng, v):
    k = int(rng.integers(3))
    v = [float(x) for x in v]
    return [v, tuple(v), np.array(v)][k]


def run(ctx):
    from meshmagick import rotations as r
    rng = ctx.rng

    def chk(name, got_mat, R, tol, what):
        ctx.close(name, got_mat, R, tol, '%s of %r' % (name, what))

    def axis_ok(ax):
        ctx.check('unit', abs(np.linalg.norm(ax) - 1) < 1e-9, 'axis %r is not a unit vector' % (ax,))

    for _ in range(PER):
        ax, an = sample(rng)
        R = geom.rot_axis_angle(ax, an)
        if rng.random() < .3:                       # a matrix with accumulated round off
            a = angles(rng)
            b = angles(rng)
            R = geom.rot_fixed(*a) if rng.random() < .5 else geom.rot_fixed(*a) @ geom.rot_fixed(*b) @ geom.rot_fixed(*b).T
            ax = an = None
        card = 1e-10 if abs(R[2, 0]) < .999 else 2e-7
        ctx.saw('gimbal' if abs(R[2, 0]) > 1 - 1e-12 else 'near gimbal' if abs(R[2, 0]) > .9999 else 'regular')
        if ax is not None:
            A = kinds(rng, ax)
            q = r.axis_angle_to_quat(A, an)
            ctx.check('unit', abs(np.linalg.norm(q) - 1) < 1e-12, 'quaternion is not a unit one')
            chk('axis_angle_to_quat', q2m(q), R, 1e-10, (ax, an))
            chk('axis_angle_to_rotmat', r.axis_angle_to_rotmat(A, an), R, 1e-10, (ax, an))
            chk('axis_angle_to_cardan', geom.rot_fixed(*r.axis_angle_to_cardan(A, an)), R, card, (ax, an))
        M = R.copy()
        q = r.rotmat_to_quat(M)
        ctx.check('unit', abs(np.linalg.norm(q) - 1) < 1e-10, 'quaternion of %r is not a unit one' % M)
        chk('rotmat_to_quat', q2m(q), R, 1e-10, M)
        chk('rotmat_to_cardan', geom.rot_fixed(*r.rotmat_to_cardan(M)), R, card, M)
        u, t = r.rotmat_to_axis_angle(M)
        axis_ok(u)
        chk('rotmat_to_axis_angle', geom.rot_axis_angle(u, t), R, 1e-10, M)
        ctx.check('argument-kept', np.array_equal(M, R), 'the matrix given was changed')
        q = np.array(q) * rng.choice([-1, 1])
        Q = kinds(rng, q)
        chk('quat_to_rotmat', r.quat_to_rotmat(Q), R, 1e-10, q)
        u, t = r.quat_to_axis_angle(Q)
        axis_ok(u)
        chk('quat_to_axis_angle', geom.rot_axis_angle(u, t), R, 1e-10, q)
        chk('quat_to_cardan', geom.rot_fixed(*r.quat_to_cardan(Q)), R, card, q)
        a = angles(rng)
        R = geom.rot_fixed(*a)
        chk('cardan_to_rotmat', r.cardan_to_rotmat(*a), R, 1e-10, a)
        q = r.cardan_to_quat(*a)
        ctx.check('unit', abs(np.linalg.norm(q) - 1) < 1e-12, 'quaternion is not a unit one')
        chk('cardan_to_quat', q2m(q), R, 1e-10, a)
        u, t = r.cardan_to_axis_angle(*a)
        axis_ok(u)
        chk('cardan_to_axis_angle', geom.rot_axis_angle(u, t), R, 1e-10, a)
        ctx.distinct(a, R)
    ctx.sample = {'last cardan angles': a}
