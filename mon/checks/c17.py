"""C17: hydrostatic quantities of a floating mesh."""
import contextlib
import io
import re
import warnings
import numpy as np
from mon import gens, geom

PROP = 'C17'
LEVEL = 'exploration'
RULE = ('Barges, ship-like hulls, non convex solids, several hulls and bodies with cavities, anywhere in space, cut by the water '
        'plane at any height and attitude (correction rotation and rise), waterlines away from the vertices or exactly on '
        'them; every reported quantity is compared with exact integrals over the wetted part obtained by an independent '
        'clipping.  Bodies out of the water or under it, or with holes at the waterline, must be refused.')
ASSUMPTIONS = ['Closed outward meshes with planar faces; no vertex within the clipper tolerance of the water plane except exactly '
               'on it; section vertices further apart than the merging distance of the clipper.']
REQUIRED = ('volume', 'mass', 'buoyancy', 'waterplane-area', 'waterplane-center', 'wetted', 'waterline', 'submerged', 'draught',
            'radii', 'heights', 'lpp', 'inertia', 'echo', 'pure', 'refused', 'forward-perpendicular', 'report')

N = {'quick': 400, 'thorough': 2500}


def cases(tier, seed):
    out = [('large', i, {'n': 50}) for i in range(1 if tier == 'quick' else 4)]
    for k in ('float', 'exact', 'corrected'):
        out += [(k, i, {}) for i in range(N[tier])]
    out += [('refused', i, {}) for i in range(N[tier] // 3)]
    return out


def hull(rng):
    k = int(rng.integers(9))
    if k == 8:
        V, F, d = gens.platform(rng, rng.uniform(10, 100))
    elif k == 0:
        L, B, H = rng.uniform(2, 100), rng.uniform(1, 30), rng.uniform(1, 20)
        V, F = gens.barge(int(rng.integers(1, 6)), int(rng.integers(1, 5)), int(rng.integers(1, 5)), L, B, H, rng.uniform(.1, .9) * H)
        d = 'barge'
    elif k in (1, 2):
        V, F = gens.wigley(int(rng.integers(4, 14)), int(rng.integers(2, 6)), rng.uniform(5, 100), rng.uniform(1, 15), rng.uniform(1, 8), rng.uniform(.3, 5))
        d = 'wigley'
    elif k == 3:
        V, F = gens.ushape(int(rng.integers(1, 4)))
        V = V[:, [2, 0, 1]] * rng.uniform(1, 10, 3)          # towers up
        d = 'ushape'
    elif k == 4:
        V, F = gens.torus(int(rng.integers(5, 14)), int(rng.integers(4, 9)), rng.uniform(3, 20), rng.uniform(.5, 2))
        d = 'torus'
    elif k == 5:                                             # twin hulls
        V, F = gens.barge(3, 2, 2, rng.uniform(5, 50), rng.uniform(1, 4), rng.uniform(2, 6), 1.)
        y = np.ptp(V[:, 1])
        V, F = gens.union((V - [0, y, 0], F), (V + [0, y * rng.uniform(.8, 2), 0], F))
        d = 'twin'
    elif k == 6:
        from mon.checks.c13 import hollow
        V, F, d = hollow(rng)
        V = V * rng.uniform(1, 10)
    else:
        V, F, d = gens.solid(rng, kind=str(rng.choice(['none', 'rigid', 'aniso'])))
        V = V * rng.uniform(1, 10)
    if rng.random() < .5:
        V, F = gens.split_some(V, F, rng, rng.random())
    if rng.random() < .5:
        V, F = gens.shuffle(V, F, rng)
    if rng.random() < .15:                                   # a model for a towing tank
        V = V * rng.uniform(.15, 1.5) / geom.extent(V)
        d += ' model'
    if rng.random() < .6:
        V = V + np.array([1, 1, 0]) * rng.uniform(-2, 2, 3) * geom.extent(V)
    return V, F, d


def place(V, rng, exact=False, tol=1e-3, tries=40, lo=.03, hi=.97):
    """Heights such that z=0 cuts the body, away from (or exactly on) its vertices."""
    z = V[:, 2]
    for _ in range(tries):
        if exact:
            c = z[rng.integers(len(z))]
            if c == z.min() or c == z.max():
                continue
        else:
            c = z.min() + rng.uniform(lo, hi) * np.ptp(z)
        d = np.abs(z - c)
        if not ((d > (1e-9 if exact else -1)) & (d < 2.5 * tol)).any():
            W = V - [0, 0, c]
            if exact:
                W[d < 1e-9, 2] = 0.
            return W
    return None


def sane(h, W, F):
    """Section points further apart than the merging distance; area and volume not negligible."""
    from scipy.spatial import cKDTree
    s = geom.extent(W)
    if h is None or h['volume'] < 1e-5 * s ** 3 or h['awp'] < 1e-5 * s * s:
        return False
    q = np.unique(np.round(h['tris'].reshape(-1, 3), 8), axis=0)
    return not cKDTree(q).query_pairs(2.2e-5)


def no_flat(W, F):
    """The section is transversal: no face lies in the water plane (it is neither wetted nor dry), no ridge or saddle is on it."""
    from mon.checks import c13
    on = np.abs(W[:, 2]) < 1e-9
    if not on.any():
        return True
    if on[F].all(axis=1).any():
        return False
    segs = c13.section(W, F, np.where(on, 0, np.sign(W[:, 2])).astype(int))
    if segs is None or len(set(tuple(sorted(x)) for x in segs)) < len(segs):
        return False
    deg = {}
    for a, b in segs:
        deg[a] = deg.get(a, 0) + 1
        deg[b] = deg.get(b, 0) + 1
    return all(v == 2 for v in deg.values())


def compute(*a, **k):
    from meshmagick.hydrostatics import compute_hydrostatics
    with contextlib.redirect_stdout(io.StringIO()):
        return compute_hydrostatics(*a, **k)


def huygens(m, d):
    return m * (d @ d * np.eye(3) - np.outer(d, d))


def run(ctx):
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    if ctx.kind == 'refused':
        return refused(ctx)
    if ctx.kind == 'large':
        V, F = gens.wigley(ctx.params['n'], 16, 100., 15., 7., 4.)
        d = 'large'
    else:
        V, F, d = hull(rng)
    R, zc = np.eye(3), 0.
    if ctx.kind == 'corrected':
        k = int(rng.integers(3))
        if k:
            R = geom.rot_fixed(*(rng.uniform(-.5, .5, 3) * (1, 1, k == 2)))
        X = place(V @ R.T, rng)
        if X is None:
            return
        c = (V @ R.T - X)[0, 2]
        if rng.random() < .5:                  # the mesh itself is not at the right height, the correction is
            zc = -float(c)
            W = V
        else:
            zc = float(rng.uniform(-2, 2))
            W = (X - [0, 0, zc]) @ R
    else:
        W = place(V, rng, ctx.kind == 'exact')
        if W is None:
            return
    X = W @ R.T + [0, 0, zc]
    h = geom.hydro(X, F)
    if not sane(h, X, F) or not no_flat(X, F):
        ctx.saw('not judged')
        return
    rho, g = float(rng.choice([1025., 1000., rng.uniform(500, 2000)])), float(rng.choice([9.81, 9.80665, rng.uniform(1, 20)]))
    cog = np.array([rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-.5, .5)]) * geom.extent(V) * .3
    if rng.random() < .3:
        cog[:2] = 0
    at_cog = bool(rng.random() < .6)
    kw = {}
    if ctx.kind == 'corrected' or rng.random() < .3:
        kw.update(rotmat_corr=R.copy(), z_corr=zc)
    if at_cog or rng.random() < .5:
        kw['at_cog'] = at_cog
    lpp = None
    if rng.random() < .3:
        lpp = kw['lpp'] = float(rng.uniform(1, 100))
    ap = bool(rng.random() < .3)
    if ap:
        kw['orig_at_ap'] = True
    ctx.sample = {'mesh': d, 'nf': len(F), 'volume': h['volume'], 'z_corr': zc, 'at_cog': at_cog, 'cog': cog}
    ctx.distinct(X, F, cog, rho)
    ctx.saw(d.split('/')[0], 'at cog' if at_cog else 'at origin')
    m = Mesh(W, F)
    c0 = cog.copy()
    hs = compute(m, cog, rho, g, **kw)
    ctx.check('pure', np.array_equal(m.vertices, W) and np.array_equal(m.faces, F) and np.array_equal(cog, c0) and
              (('rotmat_corr' not in kw) or np.array_equal(kw['rotmat_corr'], R)), d + ': an argument is modified')
    judge(ctx, hs, h, X, W, F, R, zc, cog, rho, g, at_cog, lpp, ap, d)


def judge(ctx, hs, h, X, W, F, R, zc, cog, rho, g, at_cog, lpp, ap, d):
    e = 1e-8
    s = geom.size(X)
    v = h['volume']
    wc = R @ cog + [0, 0, zc]
    ref = wc[:2] if at_cog else np.zeros(2)
    B = h['cob']
    ctx.close('volume', hs['disp_volume'], v, e * s ** 3, d + ': displaced volume')
    ctx.close('mass', hs['disp_mass'], rho * v, e * rho * s ** 3, d + ': displaced mass')
    tb = e * s ** 4 / v
    ctx.close('buoyancy', hs['buoyancy_center'], R.T @ (B - [0, 0, zc]), tb, d + ': buoyancy centre (frame of the mesh)')
    ctx.close('waterplane-area', hs['waterplane_area'], h['awp'], e * s * s, d + ': waterplane area')
    f = np.array([h['sx'] / h['awp'], h['sy'] / h['awp'], -zc])
    ctx.close('waterplane-center', hs['waterplane_center'], R.T @ f, e * s ** 3 / h['awp'], d + ': waterplane centre')
    ctx.close('wetted', hs['wet_surface_area'], h['wetted'], e * s * s, d + ': wetted area')
    wl, P = h['wl'], h['tris'].reshape(-1, 3)
    # the waterline: section points on faces that cross
    lx, ly = np.ptp(wl[:, 0]), np.ptp(wl[:, 1])
    ctx.close('waterline', [hs['length_at_waterline'], hs['breadth_at_waterline'], hs['breadth']], [lx, ly, ly], 3e-5, d + ': size at the waterline')
    ctx.close('submerged', [hs['length_overall_submerged'], hs['breadth_overall_submerged']], [np.ptp(P[:, 0]), np.ptp(P[:, 1])],
              3e-5, d + ': size of the submerged part')
    ctx.close('draught', hs['draught'], -P[:, 2].min(), 3e-5, d + ': draught')
    ctx.close('forward-perpendicular', hs['forward_perpendicular'], wl[:, 0].max(), 3e-5, d + ': forward perpendicular')
    want = lpp if lpp is not None else (wl[:, 0].max() if ap else lx)
    ctx.close('lpp', hs['length_between_perpendiculars'], want, 3e-5, d + ': Lpp')
    ctx.check('lpp', bool(hs['trust_lpp']) == (lpp is not None or ap), d + ': trust_lpp')
    ixx = h['ixx'] - 2 * ref[1] * h['sy'] + ref[1] ** 2 * h['awp']
    iyy = h['iyy'] - 2 * ref[0] * h['sx'] + ref[0] ** 2 * h['awp']
    ti = e * s ** 4 / v * 10
    ctx.close('radii', [hs['transversal_metacentric_radius'], hs['longitudinal_metacentric_radius']], [ixx / v, iyy / v], ti * 10, d + ': metacentric radii')
    a = wc[2] - B[2]
    ctx.close('heights', [hs['transversal_metacentric_height'], hs['longitudinal_metacentric_height']], [ixx / v - a, iyy / v - a],
              ti * 10 + tb, d + ': metacentric heights')
    # inertia of the homogeneous immersed volume about the centre of gravity
    T = h['tris']
    det = np.einsum('ni,ni->n', T[:, 0], np.cross(T[:, 1], T[:, 2])) / 6.
    S = T.sum(axis=1)
    m2 = np.einsum('n,nai,naj->ij', det / 20., T, T) + np.einsum('n,ni,nj->ij', det / 20., S, S)
    I = rho * geom.inertia_from_moments(m2)
    I = I - huygens(rho * v, B) + huygens(rho * v, wc - B)
    ctx.close('inertia', [hs['Ixx'], hs['Iyy'], hs['Izz'], hs['Ixy'], hs['Ixz'], hs['Iyz']],
              [I[0, 0], I[1, 1], I[2, 2], -I[0, 1], -I[0, 2], -I[1, 2]], 1e-7 * rho * (s + np.abs(wc).max()) ** 5, d + ': inertia of the immersed volume')
    ctx.check('echo', hs['grav'] == g and hs['rho_water'] == rho and np.array_equal(hs['cog'], cog) and hs['z_eq'] == zc and
              np.array_equal(hs['rotmat_eq'], R) and np.array_equal(hs['mesh'].vertices, W) and np.array_equal(hs['mesh'].faces, F),
              d + ': the data do not echo the case')
    if ctx.rng.random() < .2 and min(hs['Ixx'], hs['Iyy'], hs['Izz']) > 0:
        report(ctx, hs, d)


def report(ctx, hs, d):
    """The text report states the numbers of the data."""
    from meshmagick.hydrostatics import get_hydrostatic_report
    with contextlib.redirect_stdout(io.StringIO()):
        txt = get_hydrostatic_report(hs)
    lines = {}
    for l in txt.splitlines():
        if '>  ' in l and '---' in l:
            k, _, x = l.partition('--')
            lines.setdefault(k.strip().upper().replace('[2] ', ''), []).append([float(t) for t in l.split('>')[-1].split()])
    want = {'WATERPLANE AREA (M**2)': (hs['waterplane_area'], .06), 'WETTED SURFACE AREA (M**2)': (hs['wet_surface_area'], .06),
            'DISPLACEMENT VOLUME (M**3)': (hs['disp_volume'], 6e-4), 'DISPLACEMENT MASS (TONS)': (hs['disp_mass'] / 1000., 6e-4),
            'BUOYANCY CENTER (M)': (hs['buoyancy_center'], 6e-4), 'CENTER OF GRAVITY (M)': (hs['cog'], 6e-4),
            'WATERPLANE CENTER (M)': (hs['waterplane_center'], 6e-4),
            'DRAFT (M)': (hs['draught'], 6e-4), 'LENGTH AT WATERLINE LWL (M)': (hs['length_at_waterline'], 6e-3),
            'TRANSVERSAL METACENTRIC HEIGHT GMT (M)': (hs['transversal_metacentric_height'], 6e-4),
            'LONGITUDINAL METACENTRIC HEIGHT GML (M)': (hs['longitudinal_metacentric_height'], 6e-4),
            'Z CORRECTION (M)': (hs['z_eq'], 6e-4)}
    for k, (x, tol) in want.items():
        got = lines.get(k, [None])[0]
        ctx.check('report', got is not None and len(got) == np.size(x) and np.allclose(got, np.ravel(x), rtol=1e-5, atol=tol),
                  '%s: the report says %s = %r, the data %r' % (d, k, got, x))
    for k, (i, j) in {'K33 (N/M)': (0, 0), 'K34 (N)': (0, 1), 'K35 (N)': (0, 2), 'K44 (N.M)': (1, 1), 'K45 (N.M)': (1, 2), 'K55 (N.M)': (2, 2)}.items():
        x = hs['stiffness_matrix'][i, j]
        got = lines.get(k, [[np.nan]])[0]
        ctx.check('report', len(got) == 1 and abs(got[0] - x) <= 6e-5 * abs(x), '%s: the report says %s = %r, the data %r' % (d, k, got, x))
    ctx.check('report', ('TRANSVERSALLY UNSTABLE' in txt) == (hs['transversal_metacentric_height'] < 0) and
              ('LONGITUDINALLY UNSTABLE' in txt) == (hs['longitudinal_metacentric_height'] < 0), d + ': instability not reported')
    # two sets of inertias, each under its heading, and the mark [2] where a length was guessed
    std, imm = re.search('(?i)standard approximation', txt), re.search('(?i)immersed hull', txt)
    if ctx.check('report', std is not None and imm is not None and std.start() < imm.start(), d + ': the headings of the two sets of inertias are missing'):
        m, r = hs['disp_mass'], [.3 * hs['breadth_overall_submerged']] + 2 * [.25 * hs['length_between_perpendiculars']]
        for part, want in ((txt[std.start():imm.start()], [m * x * x for x in r]), (txt[imm.start():], [hs['I' + a] for a in ('xx', 'yy', 'zz')])):
            for n, x in zip(('IXX', 'IYY', 'IZZ'), want):
                got = re.findall(r'(?im)^\s*%s-+>\s*(\S+)\s*$' % n, part)
                ctx.check('report', len(got) == 1 and abs(float(got[0]) - x) <= 6e-4 * abs(x), '%s: %s: %r, expected %g' % (d, n, got, x))
    marked = [l for l in txt.splitlines() if l.lstrip().startswith('[2]')]
    ctx.check('report', not marked if hs['trust_lpp'] else any('LPP' in l and '--' in l for l in marked) and any('standard' in l for l in marked) and
              any('approximated' in l for l in marked), d + ': marks of the guessed length: %r' % (marked,))


def refused(ctx):
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    V, F, d = hull(rng)
    z = V[:, 2]
    what = str(rng.choice(['above', 'below', 'open', 'touching']))
    if what == 'above':
        V = V - [0, 0, z.min() - rng.uniform(.01, 5)]
    elif what == 'below':
        V = V - [0, 0, z.max() + rng.uniform(.01, 5)]
    elif what == 'touching':
        V = V - [0, 0, z.max()]
        top = np.abs(V[:, 2]) < 1e-3
        if top[F].sum(axis=1).max() > 1 or (np.abs(V[:, 2]) < 3e-3).sum() > top.sum():
            ctx.saw('flat top')
            return
    else:
        V = place(V, rng)
        if V is None:
            return
        cross = np.where((V[F][:, :, 2].min(axis=1) < 0) & (V[F][:, :, 2].max(axis=1) > 0))[0]
        F = np.delete(F, rng.choice(cross), axis=0)
    try:
        hs = compute(Mesh(V, F), np.zeros(3), 1025., 9.81)
    except RuntimeError as exc:
        ctx.check('refused', what == 'open' or exc.args[-1] == ('above' if what == 'above' else 'below'), '%s %s: %r' % (d, what, exc.args))
    else:
        ctx.check('refused', False, '%s %s: hydrostatics computed' % (d, what))
    ctx.saw(what)
    ctx.distinct(V, F)
