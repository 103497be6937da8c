"""C14: volume and inertia of the enclosed medium."""
import numpy as np
from mon import gens, geom

PROP = 'C14'
LEVEL = 'exploration'
RULE = ('Closed solids with planar faces (triangles, quads, mixed; convex or not; several bodies, cavities; inward oriented; '
        'displaced, stretched, sheared, scaled by 1e-2 to 1e4), boxes with closed-form answers; volume, mass, centre of gravity '
        'and the six inertia terms about the origin are compared with sums of signed tetrahedra.')
ASSUMPTIONS = ['Faces are planar; round-off is judged against powers of the largest coordinate.']
REQUIRED = ('volume', 'mass', 'cog', 'inertia', 'density', 'reference', 'covariance', 'inward', 'box', 'accessors')

N = {'quick': 1000, 'thorough': 4000}


def cases(tier, seed):
    out = [('large', i, {'n': 80}) for i in range(1 if tier == 'quick' else 6)]
    for k in ('solid', 'compound', 'box'):
        out += [(k, i, {}) for i in range(N[tier])]
    return out


def entries(I):
    return np.array([I.xx, I.yy, I.zz, I.yz, I.xz, I.xy])


def want_entries(m2, rho):
    """(xx, yy, zz, yz, xz, xy), products being the plain integrals."""
    return rho * np.array([m2[1, 1] + m2[2, 2], m2[0, 0] + m2[2, 2], m2[0, 0] + m2[1, 1], m2[1, 2], m2[0, 2], m2[0, 1]])


def run(ctx):
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    if ctx.kind == 'large':
        V, F = gens.torus(ctx.params['n'], ctx.params['n'], 20., 7.)
        V, F, desc = V + rng.uniform(-10, 10, 3), F, 'large'
    elif ctx.kind == 'box':
        lo = rng.uniform(-5, 5, 3)
        hi = lo + rng.uniform(.01, 10, 3)
        V, F = gens.grid_box(*[int(i) for i in rng.integers(1, 4, 3)], lo, hi)
        V, F = gens.split_some(V, F, rng, rng.random())
        desc = 'box'
    else:
        V, F, desc = gens.solid(rng)
    if ctx.kind == 'compound':
        W, G, e = gens.solid(rng, kind=str(rng.choice(['none', 'rigid', 'aniso'])))
        V, F = gens.union((V, F), (W, G if rng.random() < .6 else G[:, ::-1]))
        desc += '+' + e
    sgn = 1.
    if rng.random() < .2:
        F, sgn = F[:, ::-1].copy(), -1.
        desc += '/inward'
    if ctx.kind != 'box':
        V = gens.any_unit(V, rng)
    vol, m1, m2 = geom.volume_moments(V, F)
    s = geom.size(V)
    if abs(vol) < 1e-6 * s ** 3:
        ctx.saw('thin or far')
        return
    m = Mesh(V, F)
    rho = float(rng.choice([1., 1025., 10 ** rng.uniform(-3, 4)]))
    if rng.random() < .5:
        v = m.volume
        I = m.eval_plain_mesh_inertias(rho_medium=rho)
    else:
        I = m.eval_plain_mesh_inertias(rho_medium=rho)
        v = m.volume
    e = 1e-10
    ctx.sample = {'mesh': desc, 'nf': len(F), 'volume': vol, 'rho': rho}
    ctx.distinct(V, F, rho)
    ctx.close('volume', v, vol, e * s ** 3, desc + ': volume')
    ctx.close('mass', I.mass, rho * vol, e * rho * s ** 3, desc + ': mass')
    ctx.close('cog', I.gravity_center, m1 / vol, e * s ** 4 / abs(vol) + e * s, desc + ': centre of gravity')
    ctx.close('inertia', entries(I), want_entries(m2, rho), e * rho * s ** 5, desc + ': inertia about the origin')
    ctx.equal('reference', I.reduction_point, np.zeros(3), desc + ': reduction point')
    M = np.asarray(I.inertia_matrix)
    ctx.close('accessors', [M[0, 0], M[1, 1], M[2, 2], -M[1, 2], -M[0, 2], -M[0, 1], -M[2, 1], -M[2, 0], -M[1, 0]],
              np.concatenate([entries(I), entries(I)[3:]]), 0., desc + ': matrix and products')
    if ctx.kind in ('solid', 'large', 'box'):
        ctx.check('inward', np.sign(v) == sgn, '%s: the volume is %g' % (desc, v))
    if ctx.kind == 'box':
        a, b = np.array(lo), np.array(hi)
        w, c = sgn * np.prod(b - a), (a + b) / 2
        d = b - a
        q = w * (np.diag(d ** 2 / 12) + np.outer(c, c))
        ctx.close('box', v, w, e * s ** 3, 'box: volume')
        ctx.close('box', I.gravity_center, c, e * s ** 4 / abs(vol) + e * s, 'box: centre')
        ctx.close('box', entries(I), want_entries(q, rho), e * rho * s ** 5, 'box: inertia')
    k = float(rng.uniform(.1, 10))
    J = m.eval_plain_mesh_inertias(rho_medium=k * rho)
    ctx.close('density', J.mass, k * I.mass, 1e-12 * k * rho * s ** 3, desc + ': mass is not linear with density')
    ctx.close('density', entries(J), k * entries(I), 1e-12 * k * rho * s ** 5, desc + ': inertia is not linear with density')
    ctx.equal('density', J.gravity_center, I.gravity_center, desc + ': the centre of gravity depends on density')
    ctx.close('density', m.eval_plain_mesh_inertias().mass, 1023. * vol, 1e3 * e * s ** 3, desc + ': default density')
    # moving the mesh moves the answer
    R, t = geom.rot_fixed(*rng.uniform(-3, 3, 3)), rng.uniform(-1, 1, 3) * s
    X = V @ R.T + t
    J = Mesh(X, F).eval_plain_mesh_inertias(rho_medium=rho)
    m3 = R @ m2 @ R.T + np.outer(R @ m1, t) + np.outer(t, R @ m1) + vol * np.outer(t, t)
    s2 = geom.size(X)
    ctx.close('covariance', J.mass, I.mass, e * rho * s2 ** 3 * 10, desc + ': mass after a rigid motion')
    ctx.close('covariance', J.gravity_center, R @ I.gravity_center + t, 10 * e * s2 ** 4 / abs(vol) + e * s2, desc + ': cog after a rigid motion')
    ctx.close('covariance', entries(J), want_entries(m3, rho), e * rho * s2 ** 5 * 10, desc + ': inertia after a rigid motion')
