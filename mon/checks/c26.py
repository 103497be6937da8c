"""C26: the stateful Hydrostatics class (hydrostatics_old.py)."""
import contextlib
import io
import numpy as np
from mon import gens, geom
from mon.checks import c17, c19
from mon.checks.c24 import numbers

PROP = 'C26'
LEVEL = 'exploration'
RULE = ('Random histories of operations (displacement settings, equilibrium searches, density, gravity, mass, centre of gravity, height of it, forces, resets) on a '
        'Hydrostatics object of a generated hull.  After each, everything it reports is compared with independent integrals over its mesh and with '
        'a new object built from its present mesh, density, gravity and centre of gravity; mesh, centre of gravity and forces must have moved as one rigid body.')
ASSUMPTIONS = ['Reset brings back the mesh given at first and the centre of gravity given at first or assigned since.',
               'Hulls over 40 cm near the origin; the independent values are not judged when a vertex is within the tolerance of the clipper of the water plane.',
               'Histories end when the hull leaves the water or the clipper refuses it.']
REQUIRED = ('volume', 'waterplane', 'stiffness', 'sizes', 'inertia', 'residual', 'twin', 'rigid', 'gravity-center', 'displacement', 'equilibrium', 'reset', 'setters', 'sinking', 'forces',
            'independent', 'report', 'at-equilibrium')
N = {'quick': 150, 'thorough': 1100}
KEYS = ('wet_surface_area', 'disp_volume', 'disp_mass', 'buoy_center', 'flotation_center', 'waterplane_area', 'transversal_metacentric_radius', 'longitudinal_metacentric_radius',
        'gm_x', 'gm_y', 'stiffness_matrix', 'lwl', 'los', 'bos', 'draught', 'fp', 'breadth', 'Ixx', 'Iyy', 'Izz', 'Ixy', 'Ixz', 'Iyz')


def cases(tier, seed):
    return [('history', k, {}) for k in range(N[tier])] + [('forces', k, {}) for k in range(N[tier] // 3)] + [('platform', k, {}) for k in range(N[tier] // 3)] + \
        [('unstable', k, {}) for k in range(N[tier] // 4)]


def fit(A, B):
    """Rigid motion from A to B."""
    a, b = A - A.mean(axis=0), B - B.mean(axis=0)
    U, S, W = np.linalg.svd(b.T @ a)
    R = U @ np.diag([1, 1, np.linalg.det(U @ W)]) @ W
    return R, B.mean(axis=0) - R @ A.mean(axis=0)


def some(rng):
    """Some components only."""
    return rng.permutation([1., float(rng.random() < .5), 0.])


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def judge(ctx, H, st, what):
    """What H reports against its mesh and parameters (st: rho, g, mass in kg, cog)."""
    from meshmagick.hydrostatics_old import Hydrostatics
    V, F = np.array(H.mesh.vertices), np.array(H.mesh.faces)
    d = H.hs_data
    ctx.check('setters', H.rho_water == st['rho'] and H.gravity == st['g'] and abs(H.mass - st['mass'] / 1000.) <= 1e-12 * st['mass'] and H.zg == H.gravity_center[2] and
              np.array_equal(H.vertices, V) and np.array_equal(H.faces, F), what + ': the parameters are not those set')
    s = geom.size(V)
    ctx.close('gravity-center', np.array(H.gravity_center), st['cog'], 1e-8 * s, what + ': centre of gravity')
    cog = np.array(H.gravity_center)
    # twin
    try:
        T = quiet(Hydrostatics, H.mesh.copy(), cog=cog, rho_water=st['rho'], grav=st['g'])
    except Exception as exc:
        ctx.check('twin', False, '%s: no new object can be built from the mesh (%r)' % (what, exc))
        return None
    for k in KEYS:
        a, b = np.asarray(d[k], float), np.asarray(T.hs_data[k], float)
        sc = np.abs(b).max() if k not in ('Ixy', 'Ixz', 'Iyz', 'buoy_center', 'flotation_center', 'gm_x', 'gm_y') else \
            (T.hs_data['Ixx'] + T.hs_data['Izz'] if k[0] == 'I' else s if k[-1] != 'x' and k[-1] != 'y' else T.hs_data['longitudinal_metacentric_radius'] + s)
        if not ctx.close('twin', a, b, 1e-8 * sc, '%s: %s, compared with a new object' % (what, k)):
            break
    hm, tm = H.hydrostatic_mesh, T.hydrostatic_mesh
    ctx.check('twin', hm.nb_faces == tm.nb_faces and np.allclose(np.array(hm.vertices), np.array(tm.vertices), atol=1e-9 * s), what + ': another immersed mesh than that of a new object')
    # independent integrals
    if (np.abs(V[:, 2]) < 4e-3).any():
        ctx.saw('not judged: snapped')
        return None
    h = geom.hydro(V, F)
    if h is None:
        return None
    e = 1e-8
    v, B, awp, rho, g = h['volume'], h['cob'], h['awp'], st['rho'], st['g']
    ctx.close('volume', [H.displacement_volume, H.displacement, H.wet_surface_area], [v, rho * v / 1000., h['wetted']], np.array([s ** 3, rho * s ** 3 / 1000, s * s]) * e, what + ': volume, displacement, wetted area')
    ctx.close('volume', np.array(H.buoyancy_center), B, e * s ** 4 / v, what + ': buoyancy centre')
    ctx.close('waterplane', H.flotation_surface_area, awp, e * s * s, what + ': waterplane area')
    ctx.close('waterplane', np.array(H.flotation_center), [h['sx'] / awp, h['sy'] / awp, 0], e * s ** 3 / awp, what + ': waterplane centre')
    a = cog[2] - B[2]
    bt, bl = h['ixx'] / v, h['iyy'] / v
    tm_ = e * s ** 4 / v * 100
    ctx.close('stiffness', [H.transversal_metacentric_radius, H.longitudinal_metacentric_radius, H.transversal_metacentric_height, H.longitudinal_metacentric_height],
              [bt, bl, bt - a, bl - a], tm_, what + ': metacentres')
    k = rho * g
    want = np.array([[awp, h['sy'], -h['sx']], [h['sy'], v * (bt - a), -h['ixy']], [-h['sx'], -h['ixy'], v * (bl - a)]]) * k
    tol = 1e-7 * k * np.array([[s ** 2, s ** 3, s ** 3], [s ** 3, s ** 4, s ** 4], [s ** 3, s ** 4, s ** 4]]) + 1.1e-4
    ctx.close('stiffness', np.array(H.hydrostatic_stiffness_matrix), want, tol, what + ': stiffness')
    ctx.close('stiffness', [H.S33, H.S34, H.S35, H.S44, H.S45, H.S55], want[[0, 0, 0, 1, 1, 2], [0, 1, 2, 1, 2, 2]], tol[[0, 0, 0, 1, 1, 2], [0, 1, 2, 1, 2, 2]], what + ': stiffness coefficients')
    P, wl = h['tris'].reshape(-1, 3), h['wl']
    ctx.close('sizes', [d['lwl'], d['breadth'], d['los'], d['bos'], d['draught'], d['fp']],
              [np.ptp(wl[:, 0]), np.ptp(wl[:, 1]), np.ptp(P[:, 0]), np.ptp(P[:, 1]), -P[:, 2].min(), wl[:, 0].max()], 3e-5, what + ': lengths')
    T3 = h['tris']
    det = np.einsum('ni,ni->n', T3[:, 0], np.cross(T3[:, 1], T3[:, 2])) / 6.
    S = T3.sum(axis=1)
    m2 = np.einsum('n,nai,naj->ij', det / 20., T3, T3) + np.einsum('n,ni,nj->ij', det / 20., S, S)
    I = rho * geom.inertia_from_moments(m2) - c17.huygens(rho * v, B)
    ctx.close('inertia', [d['Ixx'], d['Iyy'], d['Izz'], d['Ixy'], d['Ixz'], d['Iyz']], [I[0, 0], I[1, 1], I[2, 2], -I[0, 1], -I[0, 2], -I[1, 2]], 1e-7 * rho * s ** 5,
              what + ': inertia of the immersed volume at its centre')
    W, mg = k * v, st['mass'] * g
    res = np.array([W - mg, W * B[1] - mg * cog[1], -W * B[0] + mg * cog[0]])
    for p, f in st['forces']:
        res += [f[2], p[1] * f[2] - p[2] * f[1], p[2] * f[0] - p[0] * f[2]]
    tr = 1e-7 * (W + mg) * np.array([1., s, s])
    ctx.close('residual', np.array(H.residual), res, tr, what + ': residual')
    ctx.close('residual', [H.delta_fz, H.delta_mx, H.delta_my], res, tr, what + ': residual components')
    sc = np.array([mg, mg * np.ptp(wl[:, 1]), mg * np.ptp(wl[:, 0])])
    r = np.abs(res / sc).max() / H.reltol
    if not .99 < r < 1.01:
        ctx.check('at-equilibrium', bool(H.is_at_equilibrium()) == (r < 1), '%s: is_at_equilibrium with a residual of %g times the tolerance' % (what, r))
    if min(abs(bt - a), abs(bl - a)) > tm_:
        ctx.check('stiffness', (bool(H.is_stable_in_roll()), bool(H.is_stable_in_pitch()), bool(H.isstable())) == (bt > a, bl > a, bt > a and bl > a), what + ': stability')
    fg, fb = H.get_gravity_force(), H.get_buoyancy_force()
    ctx.close('forces', np.concatenate([fg.point, fg.value / mg]), np.concatenate([cog, [0, 0, -1.]]), 1e-9 * s, what + ': gravity force')
    ctx.close('forces', np.concatenate([fb.point, fb.value / W]), np.concatenate([B, [0, 0, 1.]]), e * s ** 4 / v, what + ': buoyancy force')
    ctx.check('setters', bool(H.is_sinking()) == (st['mass'] > rho * geom.volume_moments(V, F)[0]), what + ': is_sinking')
    return h


def report(ctx, H, what):
    L = numbers('HYDROSTATIC REPORT\n' + quiet(H.get_hydrostatic_report))
    d = H.hs_data
    want = {'WATERPLANE AREA (M**2)': (H.flotation_surface_area, .06), 'WET AREA (M**2)': (H.wet_surface_area, .06), 'DISPLACEMENT VOLUME (M**3)': (H.displacement_volume, 6e-4),
            'DISPLACEMENT MASS (TONS)': (H.displacement, 6e-4), 'BUOYANCY CENTER (M)': (H.buoyancy_center, 6e-4), 'CENTER OF GRAVITY (M)': (H.gravity_center, 6e-4),
            'WATERPLANE CENTER (M)': (H.flotation_center[:2], 6e-4), 'DRAUGHT (M)': (d['draught'], 6e-4), 'LENGTH AT WATERLINE LWL (M)': (d['lwl'], 6e-3),
            'LENGTH OVERALL SUBMERGED (M)': (d['los'], 6e-3), 'BREADTH OVERALL SUBMERGED (M)': (d['bos'], 6e-3), 'FORWARD PERPENDICULAR (M)': (d['fp'], 6e-3),
            'TRANSVERSAL METACENTRIC RADIUS (M)': (H.transversal_metacentric_radius, 6e-4), 'LONGITUDINAL METACENTRIC RADIUS (M)': (H.longitudinal_metacentric_radius, 6e-4),
            'TRANSVERSAL METACENTRIC HEIGHT GMT (M)': (d['gm_x'], 6e-4), 'LONGITUDINAL METACENTRIC HEIGHT GML (M)': (d['gm_y'], 6e-4),
            'DENSITY OF WATER (KG/M**3)': (H.rho_water, .06), 'GRAVITY ACCELERATION (M/S**2)': (H.gravity, 6e-3)}
    for k, (x, tol) in want.items():
        got = L.get(k, [None])[0]
        ctx.check('report', got is not None and len(got) == np.size(x) and np.allclose(got, np.ravel(x), rtol=1e-6, atol=tol), '%s: the report says %s = %r, the object %r' % (what, k, got, x))
    for k, x in {'K33 (N/M)': H.S33, 'K34 (N)': H.S34, 'K35 (N)': H.S35, 'K44 (N.M)': H.S44, 'K45 (N.M)': H.S45, 'K55 (N.M)': H.S55, 'IXX': d['Ixx'], 'IYY': d['Iyy'], 'IZZ': d['Izz'],
                 'IXY': d['Ixy'], 'IXZ': d['Ixz'], 'IYZ': d['Iyz'], 'RELATIVE TOLERANCE': H.reltol}.items():
        got = L.get(k, [[np.nan]])[0]
        ctx.check('report', len(got) == 1 and abs(got[0] - x) <= (6e-5 if k[0] == 'K' else .06 if k[0] == 'R' else 6e-4) * abs(x), '%s: the report says %s = %r, the object %r' % (what, k, got, x))


def run(ctx):
    from meshmagick.mesh import Mesh
    from meshmagick.hydrostatics_old import Hydrostatics, Force
    rng = ctx.rng
    with_forces = ctx.kind == 'forces' or ctx.kind == 'unstable' and rng.random() < .5
    V, F, d = gens.platform(rng, rng.uniform(20, 100)) if ctx.kind == 'platform' else c19.ship(rng, True, model=.2)
    if rng.random() < .5:
        V = V @ geom.Rz(rng.uniform(-np.pi, np.pi)).T
    if rng.random() < .4:
        V = V + np.append(rng.uniform(-.05, .05, 2) * np.ptp(V[:, 0]), 0)
    H_ = np.ptp(V[:, 2])
    total = geom.volume_moments(V, F)[0]
    V = V + [0, 0, c19.solve(V, F, total * float(rng.uniform(.25, .6)))]
    if (np.abs(V[:, 2]) < 4e-3).any():
        ctx.saw('not judged: snapped')
        return
    h0 = geom.hydro(V, F)
    bm = min(h0['ixx'] - h0['sy'] ** 2 / h0['awp'], h0['iyy'] - h0['sx'] ** 2 / h0['awp']) / h0['volume']

    def low(B):
        """A centre of gravity under the metacentres, or over one of them."""
        if ctx.kind == 'unstable':
            return np.array([B[0], B[1], B[2] + bm * rng.uniform(1.05, 2.)]) + (0 if rng.random() < .6 else np.append(rng.normal(size=2) * .01 * bm, 0))
        return np.array([B[0], B[1], B[2] + bm * rng.uniform(-.2, .6)]) + np.append(rng.normal(size=2) * .01 * bm, 0)
    rho, g = float(rng.choice([1023., rng.uniform(900, 1100)])), float(rng.choice([9.81, rng.uniform(1, 20)]))
    cog = low(h0['cob'])
    kw = dict(rho_water=rho, grav=g)
    mass = rho * h0['volume']
    k = rng.random()
    given = cog.copy() if k < .5 else cog.tolist()
    if rng.random() < .4:
        mass = rho * total * float(rng.uniform(.3, .6))
        kw['mass'] = mass / 1000.
    m = Mesh(V, F, 'ship')
    H = quiet(Hydrostatics, m, cog=given, **kw)
    if 'mass' not in kw:
        mass = H.mass * 1000.
        ctx.close('setters', mass, rho * h0['volume'], 1e-8 * rho * geom.size(V) ** 3, d + ': default mass')
    st = {'rho': rho, 'g': g, 'mass': mass, 'cog': cog.copy(), 'forces': [], 'modes': []}
    home = {'cog': cog.copy(), 'z': True}
    if rng.random() < .6:
        H.max_iterations = 400
        H.max_restart = 1
        ctx.check('setters', H.max_iterations == 400 and H.max_restart == 1, 'solver parameters')
    else:
        H.max_restart = 2
        H.max_iterations = 300
    if rng.random() < .4:
        tol = 10 ** rng.uniform(-6, -3)
        H.reltol = tol
        ctx.check('setters', H.reltol == tol, 'solver parameters')
    if rng.random() < .3:
        zr, tr = rng.uniform(.2, .9), rng.uniform(.5, 8)
        H.z_relax = zr
        H.theta_relax = tr
        ctx.check('setters', H.z_relax == zr and H.theta_relax == tr, 'solver parameters')
    if rng.random() < .3:
        H.allow_unstable_on()
        ctx.check('setters', H.allow_unstable is True, 'allow_unstable_on')
        if rng.random() < .3:
            H.allow_unstable_off()
            ctx.check('setters', H.allow_unstable is False, 'allow_unstable_off')
    if rng.random() < .3:
        H.verbose_on()
    np.random.seed(int(rng.integers(2 ** 31)))
    ctx.distinct(V, F, cog)
    ctx.sample = {'hull': d, 'history': []}
    ctx.saw(d)
    objs = []
    if with_forces:
        for _ in range(int(rng.integers(1, 3))):
            p = h0['cob'] + rng.normal(size=3) * .1 * H_
            f = rng.normal(size=3) * .01 * mass * g * (1 if rng.random() < .6 else some(rng))
            mode = str(rng.choice(['relative', 'absolute']))
            p0, f0 = p.copy(), f.copy()
            o = Force(point=p, value=f, name='f', mode=mode)
            H.add_force(o)
            objs.append((o, p, f, p0, f0))
            st['forces'].append((p0.copy(), f0.copy()))
            st['modes'].append(mode)
    if judge(ctx, H, st, d + ': new') is None:
        return

    def moved(X0, what, xy=True):
        """The rigid motion of the mesh since X0, applied to the state."""
        X = np.array(H.mesh.vertices)
        R, t = fit(X0, X)
        s = geom.size(X)
        if not ctx.check('rigid', np.abs(X0 @ R.T + t - X).max() < 1e-8 * s and np.array_equal(np.array(H.mesh.faces), F), what + ': the mesh is deformed'):
            return None
        if not xy:
            ctx.check('rigid', np.abs(R - np.eye(3)).max() < 1e-9 and np.abs(t[:2]).max() < 1e-8 * s, what + ': the mesh is not just raised')
        st['cog'] = R @ st['cog'] + t
        st['forces'] = [(R @ p + t, R @ f if md == 'relative' else f) for (p, f), md in zip(st['forces'], st['modes'])]
        return R, t

    for step in range(7 if ctx.kind != 'unstable' else 3):
        op = 'equil' if ctx.kind == 'unstable' and step == 0 else str(rng.choice(['disp', 'equil', 'equil', 'rho', 'g', 'mass', 'cog', 'zg', 'reset', 'sinking', 'inplace', 'force']))
        if with_forces and op in ('reset', 'cog', 'zg'):
            op = 'equil'
        if ctx.kind == 'unstable' and op == 'equil' and step:
            H.max_restart = int(rng.integers(1, 4))
            H.max_iterations = int(rng.integers(20, 120))
        what = '%s, step %d %s' % (d, step, op)
        ctx.sample['history'].append(op)
        ctx.saw(op)
        X0 = np.array(H.mesh.vertices)
        try:
            if op == 'disp':
                H.max_iterations = max(H.max_iterations, 400)             # it stops there without a word
                w = st['rho'] * total * float(rng.uniform(.15, .8)) / 1000.
                z = quiet(H.set_displacement, w, **({'verbose': True} if rng.random() < .3 else {}))
                st['mass'] = w * 1000.
                R = moved(X0, what, False)
                if R is None:
                    return
                ctx.close('displacement', z, R[1][2], 1e-8 * geom.size(X0), what + ': returned rise')
                if (np.abs(np.array(H.mesh.vertices)[:, 2]) > 4e-3).all():
                    lift = sum(f[2] for p, f in st['forces']) / st['g']
                    got = st['rho'] * geom.hydro(np.array(H.mesh.vertices), F)['volume'] + lift
                    ctx.check('displacement', abs(got - st['mass']) <= 1.001 * H.reltol * st['mass'] + 1e-9 * st['rho'] * total,
                              '%s: target %g t, reached %g' % (what, w, got / 1000))
            elif op == 'equil':
                off = np.linalg.norm(st['cog'][:2]) + np.linalg.norm(np.ptp(X0, axis=0)) * .1
                code = quiet(H.equilibrate, **({'init_disp': False} if rng.random() < .3 else {}))
                if moved(X0, what) is None:
                    return
                ctx.check('equilibrium', code in (0, 1, 2), '%s: code %r' % (what, code))
                ctx.saw('code %r' % code)
                X = np.array(H.mesh.vertices)
                ctx.check('equilibrium', np.abs(np.array(H.gravity_center)[:2]).max() == 0, what + ': the centre of gravity is not on the vertical of the origin')
                if code and (np.abs(X[:, 2]) > 4e-3).all():
                    h = geom.hydro(X, F)
                    if ctx.check('equilibrium', h is not None, what + ': out of the water'):
                        mg = st['mass'] * st['g']
                        W = st['rho'] * st['g'] * h['volume']
                        res = np.array([W - mg, W * h['cob'][1], -W * h['cob'][0]])
                        for p, f in st['forces']:
                            res += [f[2], p[1] * f[2] - p[2] * f[1], p[2] * f[0] - p[0] * f[2]]
                        lx, ly = np.ptp(h['wl'][:, 0]), np.ptp(h['wl'][:, 1])
                        tol = 1.01 * H.reltol * mg * np.array([1., ly + 2 * off, lx + 2 * off]) + 1e-8 * mg * geom.size(X)
                        ctx.check('equilibrium', np.all(np.abs(res) <= tol), '%s: code %d with a relative residual of %r' % (what, code, (res / mg).tolist()))
                        gm = min(h['ixx'], h['iyy']) / h['volume'] + h['cob'][2] - st['cog'][2]
                        slack = h['awp'] * (2 * off) ** 2 / h['volume']
                        if code == 1:
                            ctx.check('equilibrium', gm > -slack, '%s: unstable (GM = %g) with code 1' % (what, gm))
                        else:
                            ctx.check('equilibrium', bool(H.allow_unstable) and gm < slack, '%s: code 2, GM = %g' % (what, gm))
            elif op == 'rho':
                st['rho'] = float(rng.uniform(900, 1100))
                H.rho_water = st['rho']
            elif op == 'g':
                st['g'] = float(rng.uniform(1, 20))
                H.gravity = st['g']
            elif op == 'mass':
                w = st['rho'] * total * float(rng.uniform(.2, .7)) / 1000.
                H.mass = w
                st['mass'] = w * 1000.
            elif op == 'cog':
                c = low(np.array(H.buoyancy_center))
                c0 = c.copy()
                H.gravity_center = c if rng.random() < .6 else c.tolist()
                st['cog'] = c0.copy()
                home = {'cog': c0.copy(), 'z': True}
                if rng.random() < .5:                     # the caller's array is the caller's
                    z = quiet(H.set_displacement, H.mass)
                    if moved(X0, what, False) is None:
                        return
                    ctx.check('independent', np.array_equal(c, c0), what + ': the array given is modified by later operations')
                    c += 1.
            elif op == 'zg':
                z = float(H.buoyancy_center[2] + bm * rng.uniform(-.2, .6))
                H.zg = z
                st['cog'] = np.append(st['cog'][:2], z)
                home['z'] = False
            elif op == 'reset':
                quiet(H.reset)
                ctx.check('reset', np.array_equal(np.array(H.mesh.vertices), V) and np.array_equal(np.array(H.mesh.faces), F), what + ': another mesh than at first')
                c = np.array(H.gravity_center)
                want = home['cog'] if home['z'] else np.append(home['cog'][:2], c[2])
                ctx.close('reset', c, want, 1e-12 * geom.size(V), what + ': centre of gravity')
                st['cog'] = c.copy() if not home['z'] else home['cog'].copy()
            elif op == 'sinking':
                try:
                    H.mass = st['rho'] * total * float(rng.uniform(1.001, 3)) / 1000.
                    ok = False
                except ValueError:
                    ok = True
                ctx.check('sinking', ok, what + ': a mass larger than the largest displacement is accepted')
                H.mass = st['mass'] / 1000.
            elif op == 'inplace':                         # what is handed out does not lead inside
                f = H.get_gravity_force()
                f.update(dz=1.)
                f.update_xy(1., 2.)
                b = H.get_buoyancy_force()
                b.update(dz=1.)
            elif op == 'force':
                p, v, R = rng.normal(size=3), rng.normal(size=3), geom.rot_axis_angle(rng.normal(size=3), rng.uniform(-3, 3))
                mode = str(rng.choice(['relative', 'absolute']))
                o = Force(point=p.copy(), value=v.copy(), mode=mode)
                dz = float(rng.normal())
                o.update(dz=dz, rot=R)
                o.update_xy(.3, -.2)
                q = R @ (p + [0, 0, dz]) + [.3, -.2, 0]
                w = R @ v if mode == 'relative' else v
                ctx.close('forces', np.concatenate([o.point, o.value]), np.concatenate([q, w]), 1e-12 * 10, 'Force.update')
                ctx.close('forces', np.array(o.hs_force), [w[2], *np.cross(q, w)[:2]], 1e-11 * 10, 'Force.hs_force')
        except RuntimeError as exc:
            if op in ('disp', 'equil', 'cog'):
                ctx.saw('left the water' if exc.args and str(exc.args[-1]) in ('above', 'below') else 'RuntimeError')
                return
            raise
        except ValueError:
            z = np.array(H.mesh.vertices)[F][:, :, 2]
            if op in ('disp', 'equil', 'cog') and not ((z > 4e-3).any(axis=1) & (z < -4e-3).any(axis=1)).any():
                ctx.saw('no floater crosses the water plane')
                return
            raise
        except Exception as exc:
            if type(exc) is Exception or isinstance(exc, np.linalg.LinAlgError):
                ctx.saw('tiny face or singular stiffness')
                return
            raise
        for (o, p, f, p0, f0), (q, w) in zip(objs, st['forces']):
            ctx.close('forces', np.concatenate([o.point, o.value / np.linalg.norm(f0)]), np.concatenate([q, w / np.linalg.norm(f0)]), 1e-7 * geom.size(V), what + ': a force does not follow the body')
            ctx.check('independent', np.array_equal(p, p0) and np.array_equal(f, f0), what + ': the arrays given to Force are modified')
        ctx.check('independent', np.array_equal(np.array(m.vertices), V) and np.array_equal(np.array(m.faces), F) and np.array_equal(given, cog), what + ': an argument of the constructor is modified')
        judge(ctx, H, st, what)
        if rng.random() < .2:
            report(ctx, H, what)
