"""C15: inertia of a thin shell."""
import numpy as np
from mon import gens, geom
from mon.checks.c14 import entries, want_entries

PROP = 'C15'
LEVEL = 'exploration'
RULE = ('Closed and open meshes, random faces, both orientations, any position and scale; mass, centre of gravity and the six '
        'inertia terms of the shell about the origin, and every integral over every face the mesh offers, are compared with '
        'exact polynomial integrals over triangles.')
ASSUMPTIONS = ['Faces are planar.']
REQUIRED = ('mass', 'cog', 'inertia', 'linear', 'reference', 'face-integrals', 'orientation')

N = {'quick': 1100, 'thorough': 4000}


def cases(tier, seed):
    out = [('large', i, {'n': 80}) for i in range(1 if tier == 'quick' else 6)]
    for k in ('solid', 'open', 'soup'):
        out += [(k, i, {}) for i in range(N[tier])]
    return out


def poly_integrals(V, F):
    """(15, nf): x y z yz xz xy x2 y2 z2 x3 y3 z3 x2y y2z z2x over every face, by an order-3 exact quadrature."""
    T, own = geom.tris(V, F)
    a = np.linalg.norm(geom.tri_vec_area(T), axis=1)
    # degree 3, 4 points (Strang-Fix)
    bary = np.array([[1 / 3., 1 / 3., 1 / 3.], [.6, .2, .2], [.2, .6, .2], [.2, .2, .6]])
    w = np.array([-27 / 48., 25 / 48., 25 / 48., 25 / 48.])
    P = np.einsum('qa,nai->nqi', bary, T)
    x, y, z = P[..., 0], P[..., 1], P[..., 2]
    fs = [x, y, z, y * z, x * z, x * y, x * x, y * y, z * z, x ** 3, y ** 3, z ** 3, x * x * y, y * y * z, z * z * x]
    out = np.zeros((15, len(F)))
    for k, f in enumerate(fs):
        np.add.at(out[k], own, a * (f @ w))
    return out


def run(ctx):
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    if ctx.kind == 'large':
        V, F = gens.torus(ctx.params['n'], ctx.params['n'], 20., 7.)
        V, F, desc = V + rng.uniform(-10, 10, 3), F, 'large'
    elif ctx.kind == 'soup':
        V, F = gens.soup(rng, int(rng.integers(1, 30)), float(rng.choice([0., .5, 1.])), 10 ** rng.uniform(-1, 2))
        desc = 'soup'
    else:
        V, F, desc = gens.solid(rng)
        if ctx.kind == 'open':
            V, F = gens.open_part(V, F, rng)
    V = gens.any_unit(V, rng)
    area, m1, m2 = geom.surface_moments(V, F)
    used = V[np.unique(F)]
    s = geom.size(used)
    m = Mesh(V, F)
    rho, th = float(10 ** rng.uniform(0, 4)), float(10 ** rng.uniform(-3, 0))
    I = m.eval_shell_mesh_inertias(rho_medium=rho, thickness=th)
    ctx.sample = {'mesh': desc, 'nf': len(F), 'area': area, 'rho': rho, 'thickness': th}
    ctx.distinct(V, F, rho, th)
    e = 1e-10
    A = area
    powers = np.array([1.] + [s * s] * 6)
    ctx.close('mass', I.mass, rho * th * area, e * rho * th * A, desc + ': mass')
    ctx.close('cog', I.gravity_center, m1 / area, e * s, desc + ': centre of gravity')
    ctx.close('inertia', entries(I), want_entries(m2, rho * th), e * rho * th * A * s * s, desc + ': inertia about the origin')
    ctx.equal('reference', I.reduction_point, np.zeros(3), desc + ': reduction point')
    k = float(rng.uniform(.1, 10))
    J = m.eval_shell_mesh_inertias(rho_medium=rho, thickness=th * k)
    K = m.eval_shell_mesh_inertias(rho_medium=rho * k, thickness=th)
    for L in (J, K):
        ctx.close('linear', np.concatenate([[L.mass], entries(L)]), k * np.concatenate([[I.mass], entries(I)]),
                  1e-11 * k * rho * th * A * powers, desc + ': not linear with density and thickness')
        ctx.close('linear', L.gravity_center, I.gravity_center, 1e-12 * s, desc + ': cog depends on density or thickness')
    ctx.close('linear', m.eval_shell_mesh_inertias().mass, 7850. * .02 * area, e * 157 * A, desc + ': default density, thickness')
    G = F[:, ::-1].copy()
    L = Mesh(V, G).eval_shell_mesh_inertias(rho_medium=rho, thickness=th)
    ctx.close('orientation', np.concatenate([[L.mass], entries(L)]), np.concatenate([[I.mass], entries(I)]),
              1e-10 * rho * th * A * powers, desc + ': depends on the orientation of the faces')
    S = np.array(m.get_surface_integrals())
    W = poly_integrals(V, F)
    p = np.repeat([1, 2, 2, 3, 3], 3)
    ctx.close('face-integrals', S, W, (1e-10 * A * s ** p)[:, None] * np.ones(S.shape) if S.shape == W.shape else 0., desc + ': face integrals')
