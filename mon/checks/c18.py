"""C18: hydrostatic stiffness."""
import numpy as np
from mon import gens, geom
from mon.checks import c17

PROP = 'C18'
LEVEL = 'exploration'
RULE = ('The floating bodies of C17 at any attitude; the heave-roll-pitch stiffness is compared, term by term, with exact '
        'waterplane moments, and as a whole with the change of the hydrostatic force and moments when the body is really moved '
        'by small heave, roll and pitch (central differences of independently computed pressure integrals).')
ASSUMPTIONS = ['Closed outward meshes; the weight equals the buoyancy at the current waterline; stiffness expressed at the origin, or at '
               'the vertical of the centre of gravity.']
REQUIRED = ('terms', 'symmetric', 'response', 'reference-change', 'scaling')

N = {'quick': 450, 'thorough': 3000}


def cases(tier, seed):
    out = [('large', i, {'n': 40}) for i in range(1 if tier == 'quick' else 4)]
    for k in ('float', 'exact', 'corrected'):
        out += [(k, i, {}) for i in range(N[tier])]
    return out


def wanted(h, ref, zg, rho, g):
    A, v = h['awp'], h['volume']
    sx, sy = h['sx'] - ref[0] * A, h['sy'] - ref[1] * A
    ixx = h['ixx'] - 2 * ref[1] * h['sy'] + ref[1] ** 2 * A
    iyy = h['iyy'] - 2 * ref[0] * h['sx'] + ref[0] ** 2 * A
    ixy = h['ixy'] - ref[0] * h['sy'] - ref[1] * h['sx'] + ref[0] * ref[1] * A
    k = v * (h['cob'][2] - zg)
    return rho * g * np.array([[A, sy, -sx], [sy, ixx + k, -ixy], [-sx, -ixy, iyy + k]])


def force(X, F, G, ref, rho, g, mass):
    """Vertical force, and moments about the horizontal axes through (ref, 0), of buoyancy and weight."""
    h = geom.hydro(X, F)
    b = rho * g * h['volume']
    w = mass * g
    return np.array([b - w, b * (h['cob'][1] - ref[1]) - w * (G[1] - ref[1]), -b * (h['cob'][0] - ref[0]) + w * (G[0] - ref[0])])


def run(ctx):
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    if ctx.kind == 'large':
        V, F = gens.wigley(ctx.params['n'], 10, 100., 15., 7., 4.)
        d = 'large'
    else:
        V, F, d = c17.hull(rng)
    R, zc = np.eye(3), 0.
    if ctx.kind == 'corrected':
        R = geom.rot_fixed(*(rng.uniform(-.4, .4, 3) * (1, 1, rng.random() < .5)))
        zc = float(rng.uniform(-2, 2))
        X = c17.place(V @ R.T, rng)
        if X is None:
            return
        W = (X - [0, 0, zc]) @ R
    else:
        W = c17.place(V, rng, ctx.kind == 'exact')
        if W is None:
            return
    X = W @ R.T + [0, 0, zc]
    h = geom.hydro(X, F)
    if not c17.sane(h, X, F) or not c17.no_flat(X, F):
        ctx.saw('not judged')
        return
    rho, g = float(rng.choice([1025., rng.uniform(500, 2000)])), float(rng.choice([9.81, rng.uniform(1, 20)]))
    cog = np.array([rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-.5, .5)]) * geom.extent(V) * .3
    at_cog = bool(rng.random() < .6)
    wc = R @ cog + [0, 0, zc]
    ref = wc[:2] if at_cog else np.zeros(2)
    hs = c17.compute(Mesh(W, F), cog, rho, g, rotmat_corr=R, z_corr=zc, at_cog=at_cog)
    K = np.array(hs['stiffness_matrix'])
    want = wanted(h, ref, wc[2], rho, g)
    s = max(geom.size(X), np.abs(ref).max())
    scale = rho * g * h['awp'] * np.array([[1, s, s], [s, s * s, s * s], [s, s * s, s * s]]) + rho * g * s ** 3 * np.array(
        [[0, 0, 0], [0, abs(wc[2]) + s, 0], [0, 0, abs(wc[2]) + s]])
    ctx.distinct(X, F, cog, rho)
    ctx.sample = {'mesh': d, 'K': K, 'at_cog': at_cog}
    ctx.saw('stable' if want[1, 1] > 0 and want[2, 2] > 0 else 'unstable', 'at cog' if at_cog else 'at origin')
    ctx.close('terms', K, want, 1e-8 * scale + 1.1e-4, '%s at_cog=%s: stiffness matrix' % (d, at_cog))
    ctx.check('symmetric', np.array_equal(K, K.T), d + ': not symmetric')
    # response of the body, moved for real
    mass = rho * h['volume']
    if ctx.kind != 'exact' and rng.random() < .6:
        o = np.array([ref[0], ref[1], 0.])
        L = np.sqrt(h['awp'])
        gap = np.abs(X[:, 2]).min()
        for j in range(3):
            e = min(1e-4, .3 * gap / (geom.extent(X) + s)) * (L if j == 0 else 1.)
            f = []
            for sg in (1, -1):
                if j == 0:
                    Y, G = X + [0, 0, sg * e], wc + [0, 0, sg * e]
                else:
                    Q = geom.Rx(sg * e) if j == 1 else geom.Ry(sg * e)
                    Y, G = (X - o) @ Q.T + o, Q @ (wc - o) + o
                f.append(force(Y, F, G, ref, rho, g, mass))
            got = -(f[0] - f[1]) / (2 * e)
            w = K[:, j]
            # rotations about the vertical of the reference point
            tol = 2e-4 * np.array([scale[0, j], scale[1, j], scale[2, j]]) + 1e-9 * rho * g * s ** (3 if j == 0 else 4) * np.array([1, s, s]) / e * 1e-3
            ctx.close('response', got[j], w[j], tol[j], '%s: reaction to a unit motion %d' % (d, j))
            if j == 0:
                ctx.close('response', got, w, tol, '%s: reaction to heave' % d)
    # the same body, expressed elsewhere
    hs2 = c17.compute(Mesh(W, F), cog, rho, g, rotmat_corr=R, z_corr=zc, at_cog=not at_cog)
    ref2 = np.zeros(2) if at_cog else wc[:2]
    t = ref2 - ref
    K2 = np.array(hs2['stiffness_matrix'])
    P = np.array([[1, t[1], -t[0]], [0, 1, 0], [0, 0, 1.]])
    # heave at the new point: z' = z + roll * dy - pitch * dx, hence K = P^T K2 P
    s2 = max(s, np.abs(ref2).max())
    ctx.close('reference-change', P.T @ K2 @ P, K, (1e-8 * rho * g * (h['awp'] * np.array([[1, s2, s2], [s2, s2 ** 2, s2 ** 2], [s2, s2 ** 2, s2 ** 2]])
              + s2 ** 3 * (s2 + abs(wc[2])) * np.diag([0, 1, 1])) + 1e-3 * np.array([[1, s2, s2], [s2, s2 ** 2, s2 ** 2], [s2, s2 ** 2, s2 ** 2]])), d + ': at the origin and at the cog')
    hs3 = c17.compute(Mesh(W, F), cog, 2 * rho, 3 * g, rotmat_corr=R, z_corr=zc, at_cog=at_cog)
    ctx.close('scaling', hs3['stiffness_matrix'], 6 * K, 1e-9 * scale * 6 + 1e-3, d + ': not linear with density and gravity')
