"""C03: transformations of a mesh are the exact affine maps they document, over any sequence of them."""
import numpy as np
from mon import gens, geom

PROP = 'C03'
LEVEL = 'exploration'
RULE = ('Random sequences of rotations, translations and scalings (special and random angles, several input types, extreme '
        'magnitudes) on generated meshes; a reference model composes the documented affine maps and the vertices, the '
        'returned matrices and the untouched faces are compared after each step.')
ASSUMPTIONS = ['rotate(phi, theta, psi): successive rotations about the fixed axes x, y, z (documented fixed-axis angles).']
REQUIRED = ('vertices', 'returned-matrix', 'faces-untouched', 'rejects-bad-scale', 'single-op')

N = {'quick': 1800, 'thorough': 5000}
OPS = ['rotate', 'rotate_x', 'rotate_y', 'rotate_z', 'rotate_matrix', 'translate', 'translate_x', 'translate_y',
       'translate_z', 'scale', 'scalex', 'scaley', 'scalez']


def cases(tier, seed):
    return [('single', i, {'op': OPS[i % len(OPS)]}) for i in range(len(OPS) * (6 if tier == 'quick' else 40))] + \
        [('sequence', i, {}) for i in range(N[tier])]


def angle(rng):
    return float(rng.choice([0., np.pi / 2, np.pi, -np.pi / 2, 2 * np.pi, np.pi / 4, rng.uniform(-7, 7),
                             rng.uniform(-1e-6, 1e-6)]))


def vec(rng, v):
    k = int(rng.integers(4))
    return [list(v), tuple(v), np.array(v), np.asfortranarray(v)][k]


def length(rng):
    return float(rng.choice([0., rng.uniform(-10, 10), rng.uniform(-1e4, 1e4), rng.uniform(-1e-3, 1e-3), 3]))


def step(ctx, m, op):
    """Applies op to the mesh.  Returns (A, b) of the documented map."""
    rng = ctx.rng
    A, b, ret = np.eye(3), np.zeros(3), None
    if op == 'rotate':
        a = [angle(rng) for _ in range(3)]
        arg = vec(rng, a)
        ret = m.rotate(arg)
        ctx.check('argument-kept', list(arg) == a, 'rotate() changed its argument')
        A = geom.rot_fixed(*a)
    elif op in ('rotate_x', 'rotate_y', 'rotate_z'):
        a = angle(rng)
        ret = getattr(m, op)(a)
        A = {'rotate_x': geom.Rx, 'rotate_y': geom.Ry, 'rotate_z': geom.Rz}[op](a)
    elif op == 'rotate_matrix':
        A = geom.rot_axis_angle(rng.normal(size=3), angle(rng))
        B = A.copy()
        m.rotate_matrix(B)
        ctx.check('argument-kept', np.array_equal(A, B), 'rotate_matrix() changed its argument')
    elif op == 'translate':
        b = np.array([length(rng) for _ in range(3)])
        arg = vec(rng, b)
        m.translate(arg)
        ctx.check('argument-kept', list(arg) == list(b), 'translate() changed its argument')
    elif op.startswith('translate_'):
        k = 'xyz'.index(op[-1])
        b[k] = length(rng)
        getattr(m, op)(b[k])
    else:
        f = float(rng.choice([1., 2., rng.uniform(.1, 5), 10. ** rng.uniform(-3, 3)]))
        getattr(m, op)(f)
        A = f * np.eye(3) if op == 'scale' else np.diag([f if c == op[-1] else 1. for c in 'xyz'])
    if op in ('rotate', 'rotate_x', 'rotate_y', 'rotate_z'):
        ctx.close('returned-matrix', ret, A, 1e-12, op + ' returned matrix')
    return A, b


def run(ctx):
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    if rng.random() < .2:
        V, F = gens.soup(rng, int(rng.integers(1, 30)))
        desc = 'soup'
    else:
        V, F, desc = gens.solid(rng)
    V = gens.any_unit(V, rng, .15)
    if rng.random() < .15:
        V = np.concatenate([V, rng.normal(size=(2, 3))])       # unused vertices move too
    m = Mesh(V, F)
    W = V.copy()
    ops = [ctx.params['op']] if ctx.kind == 'single' else [str(rng.choice(OPS)) for _ in range(rng.integers(2, 25))]
    mag = geom.size(W)
    for k, op in enumerate(ops):
        if rng.random() < .3:
            rng.choice([lambda: m.faces_areas, lambda: m.volume, lambda: m.faces_centers])()
        A, b = step(ctx, m, op)
        W = W @ A.T + b
        g = np.linalg.norm(A, 2)
        mag = max(mag * g + np.abs(b).max(), geom.size(W))
        if mag > 1e12 or geom.size(W) < 1e-13:
            break
        ctx.close('single-op' if ctx.kind == 'single' else 'vertices', m.vertices, W, 1e-13 * (k + 2) * mag,
                  '%s after %s' % (desc, ' '.join(ops[:k + 1][-6:])))
        ctx.check('faces-untouched', np.array_equal(m.faces, F), 'faces changed by ' + op)
    if rng.random() < .3:
        before = np.array(m.vertices)
        for op in ('scale', 'scalex', 'scaley', 'scalez'):
            for bad in (0., -1.):
                try:
                    getattr(m, op)(bad)
                    ok = False
                except AssertionError:
                    ok = True
                except ValueError:
                    ok = True
                ctx.check('rejects-bad-scale', ok and np.array_equal(before, m.vertices), '%s(%g)' % (op, bad))
    ctx.distinct(V, ops)
    ctx.sample = {'mesh': desc, 'ops': ops}
