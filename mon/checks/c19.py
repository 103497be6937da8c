"""C19: hydrostatic equilibrium solvers."""
import contextlib
import io
import warnings
import numpy as np
from mon import gens, geom
from mon.checks import c17

PROP = 'C19'
LEVEL = 'exploration'
RULE = ('Barges, ship-like hulls, tapered, twin and convex hulls, initially floating, out of the water or under it; target displacements '
        'from 2% to 98% of the largest one, and unreachable ones; centres of gravity on and off the vertical of the hull. The '
        'position each solver returns is judged by an independent evaluation of buoyancy at that position.')
ASSUMPTIONS = ['Hulls larger than 1 m, where the 1 mm snapping of the clipper is small; no judgement when a vertex is within that '
               'tolerance of the water plane at the returned position.',
               'The full equilibrium is demanded for hulls near the origin that are stable upright, and reach equilibrium at moderate angles.']
REQUIRED = ('displacement', 'position', 'infeasible', 'pure', 'reltol', 'rotation', 'full-displacement', 'full-moments', 'verbose',
            'upright')

WATCHDOG = 15
STEPS = 20000                    # executions of one line of the solvers: the largest number seen on terminating searches is 3100
STEPS_FILE = 'hydrostatics.py'
N = {'quick': 120, 'thorough': 1600}


def cases(tier, seed):
    out = [('full', i, {}) for i in range(N[tier])]
    out += [('displacement', i, {}) for i in range(N[tier] * 2)]
    out += [('infeasible', i, {}) for i in range(N[tier] // 3)]
    return out


def ship(rng, full=False, model=0.):
    k = int(rng.integers(3 if full else 6))
    L, B, H = rng.uniform(10, 100), rng.uniform(4, 20), rng.uniform(2, 12)
    if full:
        B = L * rng.uniform(.3, .9)
        H = B * rng.uniform(.25, .6)
    if k == 0:
        V, F = gens.barge(int(rng.integers(1, 6)), int(rng.integers(1, 5)), int(rng.integers(1, 5)), L, B, H, H / 2)
        d = 'barge'
    elif k == 1:
        V, F = gens.wigley(int(rng.integers(6, 14)), int(rng.integers(3, 7)), L, B, .6 * H, .4 * H)
        d = 'wigley'
    elif k == 2:
        V, F = gens.barge(int(rng.integers(2, 6)), int(rng.integers(2, 5)), int(rng.integers(2, 5)), L, B, H, H / 2)
        t, a = rng.uniform(-.25, .25, 2)
        z = V[:, 2] / H + .5
        V = V.copy()
        V[:, 1] *= 1 + t * z
        V[:, 0] *= 1 + a * z
        d = 'tapered'
    elif k == 3:
        V, F = gens.barge(3, 2, 2, L, B, H, H / 2)
        V, F = gens.union((V - [0, B, 0], F), (V + [0, B * rng.uniform(.8, 2), 0], F))
        d = 'twin'
    elif k == 4:
        V, F = gens.hull(rng, int(rng.integers(8, 24)))
        V = V * np.array([L, B, H]) / 2
        d = 'convex'
    else:
        V, F = gens.sphere(int(rng.integers(5, 10)), int(rng.integers(6, 14)), 1.)
        V = V @ geom.rot_fixed(*rng.uniform(-3, 3, 3)).T * np.array([L, B, H]) / 2
        d = 'ellipsoid'
    if rng.random() < .5:
        V, F = gens.split_some(V, F, rng, rng.random())
    if rng.random() < .5:
        V, F = gens.shuffle(V, F, rng)
    if rng.random() < model:                                 # a model for a towing tank
        W = V * rng.uniform(.4, 3) / np.ptp(V[:, 0])
        e = np.linalg.norm(W[F] - W[np.roll(F, 1, axis=1)], axis=2)
        if e[e > 0].min() > .02:                             # far over the tolerance of the clipper
            V, d = W, d + ' model'
    return V, F, d


def volume(V, F, z):
    h = geom.hydro(V + [0, 0, z], F)
    return 0. if h is None else h['volume']


def solve(V, F, v):
    lo, hi = -V[:, 2].max(), -V[:, 2].min()
    for _ in range(70):
        m = (lo + hi) / 2
        if volume(V, F, m) > v:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


def call(f, *a, **k):
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        with contextlib.redirect_stdout(out):
            r = f(*a, **k)
    return r, out.getvalue(), [str(x.message) for x in w]


def snapped(V, z):
    d = np.abs(V[:, 2] + z)
    return bool((d < 4e-3).any())


def run(ctx):
    if ctx.kind == 'full':
        return full(ctx)
    from meshmagick.mesh import Mesh
    from meshmagick.hydrostatics import displacement_equilibrium
    rng = ctx.rng
    V, F, d = ship(rng, model=.2)
    if rng.random() < .7:
        V = V + rng.uniform(-1, 1, 3) * [50, 50, 0]
    H = np.ptp(V[:, 2])
    start = str(rng.choice(['floating', 'floating', 'above', 'below']))
    V = V - [0, 0, V[:, 2].min()] + [0, 0, {'floating': -H * rng.uniform(.05, .95), 'above': rng.uniform(.01, 20),
                                            'below': -H - rng.uniform(.01, 20)}[start]]
    rho, g = float(rng.choice([1025., 1000., rng.uniform(500, 2000)])), float(rng.uniform(1, 20))
    total = geom.volume_moments(V, F)[0]
    cog = rng.normal(size=3)
    kw = {}
    if rng.random() < .5:
        kw['cog'] = cog.copy()
    reltol = 1e-6
    if rng.random() < .4:
        reltol = kw['reltol'] = float(10 ** rng.uniform(-8, -3))
    m = Mesh(V, F)
    ctx.distinct(V, F, rho, reltol)
    ctx.saw(d, start, ctx.kind)
    if ctx.kind == 'infeasible':
        disp = rho * total / 1000. * float(rng.uniform(1.001, 5))
        z, out, warn = call(displacement_equilibrium, m, disp, rho, g, **kw)
        X = V + [0, 0, z]
        ctx.sample = {'hull': d, 'start': start, 'z': z}
        ctx.check('infeasible', len(warn) > 0 or 'onvergence' in out, '%s: nothing says that the displacement is out of reach' % d)
        ctx.check('infeasible', X[:, 2].max() < max(2.1e-3, .02 * H) and X[:, 2].max() > -1e-9 - max(2.1e-3, .02 * H),
                  '%s: for an unreachable displacement the top is left at %g (height %g)' % (d, X[:, 2].max(), H))
        return
    frac = float(rng.uniform(.02, .98))
    v = total * frac
    ref = solve(V, F, v)
    if -ref - V[:, 2].min() < 4e-3 + 2e-4 * H or V[:, 2].max() + ref < 4e-3 + 2e-4 * H:
        ctx.saw('too close to an end')
        return
    disp = rho * v / 1000.
    if rng.random() < .2:
        (z, out, warn), (z2, o2, w2) = (call(displacement_equilibrium, m, disp, rho, g, verbose=b, **kw) for b in (True, False))
        ctx.check('verbose', snapped(V, ref) or z == z2 and len(out) > 0 and o2 == '', d + ': verbosity changes the result, or a silent call prints')
    else:
        z, out, warn = call(displacement_equilibrium, m, disp, rho, g, **kw)
    ctx.sample = {'hull': d, 'start': start, 'z': z, 'expected': ref, 'fraction': frac}
    ctx.check('pure', np.array_equal(m.vertices, V) and np.array_equal(m.faces, F) and np.array_equal(kw.get('cog', cog), cog),
              d + ': an argument is modified')
    if snapped(V, ref):
        ctx.saw('not judged: snapped')
        return
    got = volume(V, F, z)
    ctx.check('displacement', abs(got - v) <= reltol * 1.01 * v + 1e-9 * total, '%s %s: target %g t, reached %g t (%s)' % (
        d, start, disp, rho * got / 1000, out[-60:].strip()))
    if reltol < 1e-6:
        ctx.check('reltol', abs(got - v) <= reltol * 1.01 * v + 1e-9 * total, '%s: reltol=%g not respected' % (d, reltol))
    awp = geom.hydro(V + [0, 0, ref], F)['awp']
    ctx.close('position', z, ref, 2 * reltol * v / awp + 1e-7 * H, '%s %s: rise' % (d, start))
    ctx.check('infeasible', not warn, '%s: a reachable displacement is said out of reach: %r' % (d, warn))


def full(ctx):
    from meshmagick.mesh import Mesh
    from meshmagick.hydrostatics import full_equilibrium
    rng = ctx.rng
    V, F, d = ship(rng, True, model=.3)
    turn = 0.
    if rng.random() < .5:
        turn = rng.uniform(-np.pi, np.pi)
        V = V @ geom.Rz(turn).T
    off = np.zeros(3)
    if rng.random() < .5:
        off[:2] = rng.uniform(-.5, .5, 2) * np.ptp(V[:, 0])
        V = V + off
    H = np.ptp(V[:, 2])
    start = str(rng.choice(['floating', 'floating', 'above', 'below']))
    up = {'floating': -H * rng.uniform(.2, .8), 'above': rng.uniform(.01, 10), 'below': -H - rng.uniform(.01, 10)}[start] - V[:, 2].min()
    V = V + [0, 0, up]
    rho, g = float(rng.choice([1025., rng.uniform(500, 2000)])), float(rng.choice([9.81, rng.uniform(1, 20)]))
    total, m1, _ = geom.volume_moments(V, F)
    v = total * float(rng.uniform(.25, .6))
    z0 = solve(V, F, v)
    h = geom.hydro(V + [0, 0, z0], F)
    B = h['cob'] - [0, 0, z0]
    # a centre of gravity under the metacentres, displaced so that heel and trim stay moderate
    fx, fy = h['sx'] / h['awp'], h['sy'] / h['awp']
    A = np.array([[h['iyy'] - fx ** 2 * h['awp'], h['ixy'] - fx * fy * h['awp']], [h['ixy'] - fx * fy * h['awp'], h['ixx'] - fy ** 2 * h['awp']]])
    rmin = np.linalg.eigvalsh(A)[0] / v
    gm = rmin * rng.uniform(.3, .9)
    zg = B[2] + rmin - gm
    ang = np.radians(rng.uniform(0, 5))
    if rng.random() < .2:
        ang = 0.
    # towards any direction, or in pure heel or pure trim
    lean = rng.uniform(-np.pi, np.pi) if rng.random() < .5 else turn + np.pi / 2 * rng.integers(4)
    # a turn of the angle about the horizontal axis moves the vertical of the buoyancy by gm * angle
    G = np.array([B[0], B[1], zg])
    G[:2] += gm * np.tan(ang) * np.array([np.cos(lean), np.sin(lean)])
    reltol = 1e-6
    kw = {}
    if rng.random() < .3:
        reltol = kw['reltol'] = float(10 ** rng.uniform(-7, -4))
    elif d.endswith('model') and rng.random() < .6:
        reltol = kw['reltol'] = float(10 ** rng.uniform(-5, -2))
    m = Mesh(V, F)
    g0 = G.copy()
    disp = rho * v / 1000.
    ctx.distinct(V, F, G, rho)
    (z, R), out, warn = call(full_equilibrium, m, G, disp, rho, g, **kw)
    R = np.array(R)
    ctx.check('pure', np.array_equal(m.vertices, V) and np.array_equal(m.faces, F) and np.array_equal(G, g0), d + ': an argument is modified')
    ctx.check('rotation', np.abs(R @ R.T - np.eye(3)).max() < 1e-9 and np.linalg.det(R) > 0, d + ': the correction is not a rotation')
    X = V @ R.T + [0, 0, z]
    if (np.abs(X[:, 2]) < 4e-3).any():
        ctx.saw('not judged: snapped')
        return
    tilt = np.degrees(np.arccos(min(1., R[2, 2])))
    ctx.sample = {'hull': d, 'start': start, 'z': z, 'tilt': tilt, 'rotation': R, 'cog': G}
    ctx.saw(d, start, 'tilt < 1 deg' if tilt < 1 else 'tilt < 5 deg' if tilt < 5 else 'tilt > 5 deg')
    q = geom.hydro(X, F)
    W = R @ G + [0, 0, z]
    ctx.check('full-displacement', q is not None and abs(q['volume'] - v) <= 1.01 * reltol * v + 1e-9 * total,
              '%s %s: target %g t, reached %g t (%s)' % (d, start, disp, 0 if q is None else rho * q['volume'] / 1000, out[-60:].strip()))
    if q is None:
        return
    lx, ly = np.ptp(q['wl'][:, 0]), np.ptp(q['wl'][:, 1])
    k = q['volume'] / v
    ctx.close('full-moments', k * q['cob'][:2] - W[:2], [0, 0], np.array([lx, ly]) * reltol * 1.01 + 1e-9 * geom.size(X) + 5e-5 * reltol,
              '%s %s: buoyancy is not on the vertical of the centre of gravity (%s)' % (d, start, out[-60:].strip()))
    ctx.check('full-moments', tilt < 40., '%s: capsized (%g degrees)' % (d, tilt))
    if ang == 0. and d.startswith('barge'):
        # already upright
        ctx.close('upright', R, np.eye(3), 1e-3, d + ': a hull in equilibrium upright is turned')
