"""C24: what the command line reports."""
import os
import re
import numpy as np
from mon import gens, geom
from mon.checks import c17, c19, c21
from mon.checks.c23 import cli, collected, f6, load, nm, shuffle, small_mesh, put, transform_options

PROP = 'C24'
LEVEL = 'exploration'
RULE = ('The real main() with -hs in its four modes (-zcog, -mdisp -zcog, -cog, -mdisp -cog) and every other hydrostatic option, with -pi, -si, -i, --list-medium '
        'and transformations, on generated hulls and meshes.  Labelled numbers are read from the printed report and from the report file, and compared with '
        'independent integrals over the mesh that the same command writes, and over the mesh given.')
ASSUMPTIONS = ['Numbers are compared to the digits the reports print.',
               'Hulls and models of hulls over half a metre, not judged when a vertex is within the tolerance of the clipper (1 mm) of the water plane.',
               'Centres of gravity under the metacentres and nearly over the buoyancy, so that the equilibrium is at moderate angles.']
REQUIRED = ('ran', 'position', 'requested', 'hull', 'stiffness', 'metacentric', 'lpp', 'approximations', 'immersed-inertia', 'report-file', 'plain', 'shell', 'info', 'mediums',
            'needs-cog', 'written')
N = {'quick': 250, 'thorough': 2400}
FMT = ('mar', 'nem', 'nat', 'tec')


def preload():
    import vtk  # noqa
    from meshmagick import cli  # noqa
    vtk.vtkObject.GlobalWarningDisplayOff()


def cases(tier, seed):
    n = N[tier]
    return ([('hs', k, {'mode': ('zcog', 'disp', 'cog', 'full')[k % 4]}) for k in range(n)] + [('inertia', k, {}) for k in range(n)] +
            [('info', k, {}) for k in range(n // 2)] + [('mediums', k, {}) for k in range(4)] + [('needs', k, {}) for k in range(6)])


def run(ctx):
    return globals()['k_' + ctx.kind](ctx)


def numbers(txt):
    """label -> list of lists of numbers."""
    out = {}
    for l in txt[max(0, txt.find('HYDROSTATIC REPORT')):].splitlines():
        m = re.match(r'\s*(.*?)-+>\s+([-+.\dEenaif ]+)$', l)
        if m:
            out.setdefault(m.group(1).strip().upper(), []).append([float(t) for t in re.findall(r'-?\d+\.?\d*(?:E[-+]\d+)?|nan|inf', m.group(2))])
    return out


def k_hs(ctx):
    rng = ctx.rng
    mode = ctx.params['mode']
    solve3 = mode in ('cog', 'full')
    V, F, d = c19.ship(rng, solve3)
    if rng.random() < .3:                                # a model of the hull
        V = V * float(rng.choice([.1, .05]))
        d += ' (model)'
    if rng.random() < .5:
        V = V @ geom.Rz(rng.uniform(-np.pi, np.pi)).T
    if rng.random() < .5:
        V = V + np.append(rng.uniform(-.5, .5, 2) * np.ptp(V[:, 0]), 0)
    H = np.ptp(V[:, 2])
    total = geom.volume_moments(V, F)[0]
    v = total * float(rng.uniform(.25, .6))
    V = V + [0, 0, c19.solve(V, F, v)]                   # floats on v as it is
    if mode in ('disp', 'full'):
        V = V + [0, 0, float(rng.uniform(-.3, .3)) * H]  # ... and is put elsewhere
    V = np.round(V, 6) + 0.
    t = np.zeros(3)
    groups = []
    if rng.random() < .4:
        t = np.round(rng.uniform(-5, 5, 3), 3)
        groups.append([nm(rng, '-t', '--translate')] + ['%.3f' % x for x in t])
    V0 = np.round(V - t, 6) + 0.
    V = V0 + t
    fmt = str(rng.choice(FMT))
    name = 'in.' + fmt
    if rng.random() < .3:
        name = os.path.join(str(rng.choice(['hulls', 'hulls.v2'])), str(rng.choice(['in.', 'in.1.'])) + fmt)
        os.mkdir(os.path.dirname(name))
    c21.WRITERS[fmt](name, V0, F, rng)
    Vr, Fr = load(name, fmt)
    if Vr.shape != V0.shape or np.abs(Vr - V0).max() > 1e-5:
        ctx.saw('not written alike')                     # a foreign writer may drop or reorder; C21 judges the readers
    V, F = Vr + t, Fr
    rho = g = None
    if rng.random() < .5:
        rho = round(float(rng.uniform(900, 1100)), 2)
        groups.append([nm(rng, '-wd', '--water-density'), '%.2f' % rho])
    if rng.random() < .5:
        g = round(float(rng.uniform(1, 20)), 2)
        groups.append([nm(rng, '-g', '--grav'), '%.2f' % g])
    rho, g = rho or 1025., g or 9.81
    z0 = c19.solve(V, F, v) if mode in ('disp', 'full') else 0.
    h0 = geom.hydro(V + [0, 0, z0], F)
    B = h0['cob'] - [0, 0, z0]
    fx, fy = h0['sx'] / h0['awp'], h0['sy'] / h0['awp']
    A = np.array([[h0['iyy'] - fx ** 2 * h0['awp'], h0['ixy'] - fx * fy * h0['awp']], [h0['ixy'] - fx * fy * h0['awp'], h0['ixx'] - fy ** 2 * h0['awp']]])
    rmin = np.linalg.eigvalsh(A)[0] / h0['volume']
    G = None
    if solve3:
        gm = rmin * rng.uniform(.3, .9)
        ang, lean = np.radians(rng.uniform(0, 4)), rng.uniform(-np.pi, np.pi)
        G = np.array([B[0], B[1], B[2] + rmin - gm])
        G[:2] += gm * np.tan(ang) * np.array([np.cos(lean), np.sin(lean)])
        G = np.array([float(f6(x)) for x in G])
        groups.append([nm(rng, '-cog', '--cog')] + [f6(x) for x in G])
    zg = None
    if not solve3 or rng.random() < .2:
        zg = float(f6(B[2] + rmin * rng.uniform(-.5, 1.6)))
        groups.append([nm(rng, '-zg', '--zcog'), f6(zg)])
    disp = rho * geom.hydro(V, F)['volume'] / 1000. if mode in ('zcog', 'cog') else float('%.6f' % (rho * v / 1000.))
    if mode in ('disp', 'full'):
        groups.append([nm(rng, '-mdisp', '--mass-displacement'), f6(disp)])
    lpp, ap = None, False
    if rng.random() < .35:
        lpp = round(float(rng.uniform(5, 120)), 3)
        groups.append([nm(rng, '-lpp', '--lpp'), '%.3f' % lpp])
    if rng.random() < .35:
        ap = True
        groups.append([nm(rng, '-ap', '--orig-at-ap')])
    rep = None
    if rng.random() < .5:
        rep = 'report.txt'
        groups.append(['--hs-report', rep])
        if rng.random() < .5:                     # over a former report
            with open(rep, 'w') as f:
                f.write('a former report\n' * 400)
    groups.append([nm(rng, '-hs', '--hydrostatics')])
    if rng.random() < .2:
        groups.append([nm(rng, '-q', '--quiet')])
    groups.append([nm(rng, '-o', '--outfilename'), 'out.nem'])
    args = [name] + shuffle(groups, rng)
    ctx.distinct(V, F, tuple(args))
    ctx.sample = {'command line': ' '.join(args), 'hull': d}
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        err, out = cli(args)
    what = '%s, %s: ' % (mode, d)
    snap = lambda X: (np.abs(X[:, 2]) < 4e-3).any()
    if mode in ('zcog', 'cog') and snap(V) or mode == 'disp' and snap(V + [0, 0, z0]):
        ctx.saw('not judged: snapped')
        return
    if solve3 and err is not None and os.path.exists('out.nem') is False and 'ertex' in repr(err):
        ctx.saw('refused by the clipper')
        return
    if not ctx.check('ran', err is None and os.path.isfile('out.nem'), what + 'ends with %r' % (err,)):
        return
    X, Fx = load('out.nem', 'nem')
    if not ctx.check('written', X.shape == V.shape and collected(Fx) == collected(F), what + 'the mesh written has other faces'):
        return
    # the rigid motion from the mesh given to the mesh written
    a, b = V - V.mean(axis=0), X - X.mean(axis=0)
    U, S, Wt = np.linalg.svd(b.T @ a)
    R = U @ np.diag([1, 1, np.linalg.det(U @ Wt)]) @ Wt
    T = X.mean(axis=0) - R @ V.mean(axis=0)
    ctx.check('written', np.abs(V @ R.T + T - X).max() < 3e-6 and np.abs(T[:2]).max() < 1e-4, what + 'the mesh written is not the mesh given, rotated about the origin and '
              'raised (%r)' % (np.abs(V @ R.T + T - X).max(),))
    zc = T[2]
    if not solve3:
        ctx.check('written', np.abs(R - np.eye(3)).max() < 1e-5 and (mode == 'disp' or abs(zc) < 1e-5), what + 'the mesh is turned or raised without reason')
    if snap(X):
        ctx.saw('not judged: snapped')
        return
    h = geom.hydro(X, F)
    L = numbers(out)
    if not ctx.check('ran', h is not None and 'DISPLACEMENT MASS (TONS)' in L, what + 'no report'):
        return
    s = geom.size(V)
    C = G if G is not None else np.append((R.T @ (h['cob'] - [0, 0, zc]))[:2], zg)
    wc = R @ C + [0, 0, zc]
    if solve3:
        ctx.saw('tilt %d' % int(np.degrees(np.arccos(min(1., R[2, 2])))))

    def same(o, label, x, tol, k=0, rel=0.):
        got = L.get(label, [])
        if not ctx.check(o, len(got) > k, what + 'no line "%s"' % label):
            return
        x = np.ravel(np.asarray(x, float))
        ctx.check(o, len(got[k]) == len(x) and bool(np.all(np.abs(np.array(got[k]) - x) <= tol + rel * np.abs(x))), what + '%s: %r reported, %r expected' % (label, got[k], x.tolist()))

    p3, p2, p1 = 5.1e-4, 5.1e-3, 5.1e-2
    e = 5e-6                                             # accuracy of the file
    # requests
    same('requested', 'DISPLACEMENT MASS (TONS)', disp, p3, rel=1.1e-5)
    got = rho * h['volume'] / 1000.                      # of the mesh written, beyond the digits of the report
    ctx.check('requested', abs(got - disp) <= 3e-6 * disp + rho * (h['awp'] + h['wetted']) * 2e-9, what + 'the mesh written displaces %.9g t, %.9g requested' % (got, disp))
    same('requested', 'DENSITY OF WATER (KG/M**3)', rho, p1)
    same('requested', 'GRAVITY ACCELERATION (M/S**2)', g, p2)
    same('requested', 'CENTER OF GRAVITY (M)', C, p3 + e * (10 if G is None else 1))
    if solve3:
        ctx.check('requested', np.abs(h['cob'][:2] - wc[:2]).max() < 2e-5 * s, what + 'buoyancy is not over the centre of gravity: %r' % (h['cob'] - wc))
    # position
    same('position', 'Z CORRECTION (M)', zc, p3 + e * 2)
    phi, th = np.arctan2(R[2, 1], R[2, 2]), -np.arcsin(np.clip(R[2, 0], -1, 1))
    same('position', 'HEEL CORRECTION (DEG)', np.degrees(phi), 1e-3)
    same('position', 'TRIM CORRECTION (DEG)', np.degrees(th), 1e-3)
    # hull
    awp = h['awp']
    same('hull', 'WATERPLANE AREA (M**2)', awp, p1, rel=1e-5)
    same('hull', 'WATERPLANE CENTER (M)', R.T @ (np.array([h['sx'] / awp, h['sy'] / awp, 0]) - [0, 0, zc]), p3 + e * 10, rel=1e-5)
    same('hull', 'WETTED SURFACE AREA (M**2)', h['wetted'], p1, rel=1e-5)
    same('hull', 'DISPLACEMENT VOLUME (M**3)', h['volume'], p3, rel=1e-5)
    same('hull', 'BUOYANCY CENTER (M)', R.T @ (h['cob'] - [0, 0, zc]), p3 + e * 10, rel=1e-5)
    P, wl = h['tris'].reshape(-1, 3), h['wl']
    same('hull', 'DRAFT (M)', -P[:, 2].min(), p3 + 5e-5)
    lx = np.ptp(P[:, 0])
    by = np.ptp(P[:, 1])
    same('hull', 'LENGTH OVERALL SUBMERGED (M)', lx, p2 + 5e-5)
    same('hull', 'BREADTH OVERALL SUBMERGED (M)', by, p2 + 5e-5)
    lwl, fp = np.ptp(wl[:, 0]), wl[:, 0].max()
    same('hull', 'LENGTH AT WATERLINE LWL (M)', lwl, p2 + 2e-4)
    same('hull', 'FORWARD PERPENDICULAR FP (M)', fp, p2 + 2e-4)
    want = lpp if lpp is not None else fp if ap else lwl
    trust = lpp is not None or ap
    lab = 'LENGTH BETWEEN PERPENDICULARS LPP (M)'
    same('lpp', lab if trust else '[2] ' + lab, want, p2 + 2e-4)
    ctx.check('lpp', (lab in L) == trust and ('specify a Lpp' in out) != trust, what + 'trusted Lpp: %r' % (lab in L))
    # metacentres, stiffness about the vertical of the centre of gravity
    xr, yr = wc[:2]
    ixx = h['ixx'] - 2 * yr * h['sy'] + yr * yr * awp
    iyy = h['iyy'] - 2 * xr * h['sx'] + xr * xr * awp
    ixy = h['ixy'] - xr * h['sy'] - yr * h['sx'] + xr * yr * awp
    bt, bl = ixx / h['volume'], iyy / h['volume']
    gt, gl = bt - wc[2] + h['cob'][2], bl - wc[2] + h['cob'][2]
    em = e * 20 + 1e-5 * (bt + bl)
    same('metacentric', 'TRANSVERSAL METACENTRIC RADIUS (M)', bt, p3 + em)
    same('metacentric', 'LONGITUDINAL METACENTRIC RADIUS (M)', bl, p3 + em)
    same('metacentric', 'TRANSVERSAL METACENTRIC HEIGHT GMT (M)', gt, p3 + em)
    same('metacentric', 'LONGITUDINAL METACENTRIC HEIGHT GML (M)', gl, p3 + em)
    if abs(gt) > 1e-3:
        ctx.check('metacentric', ('TRANSVERSALLY UNSTABLE' in out) == (gt < 0), what + 'transversal stability, GMt = %g' % gt)
    if abs(gl) > 1e-3:
        ctx.check('metacentric', ('LONGITUDINALLY UNSTABLE' in out) == (gl < 0), what + 'longitudinal stability, GMl = %g' % gl)
    k = rho * g
    sx, sy = h['sx'] - xr * awp, h['sy'] - yr * awp
    rk = 6e-5
    same('stiffness', 'K33 (N/M)', k * awp, 0, rel=rk)
    same('stiffness', 'K34 (N)', k * sy, 3e-5 * k * awp * s, rel=rk)
    same('stiffness', 'K35 (N)', -k * sx, 3e-5 * k * awp * s, rel=rk)
    same('stiffness', 'K44 (N.M)', k * h['volume'] * gt, k * h['volume'] * em, rel=rk)
    same('stiffness', 'K45 (N.M)', -k * ixy, 3e-5 * k * awp * s * s, rel=rk)
    same('stiffness', 'K55 (N.M)', k * h['volume'] * gl, k * h['volume'] * em, rel=rk)
    m = rho * h['volume']
    r = [.3 * by, .25 * want, .25 * want]
    for n, x in zip(('RXX', 'RYY', 'RZZ'), r):
        same('approximations', n + ' (M)', x, p3 + 1e-4)
    for n, x in zip(('IXX', 'IYY', 'IZZ'), r):
        same('approximations', n, x * x * m, 0, rel=6e-4 + 1e-3 / max(abs(x), 1e-3))
    T = h['tris']
    det = np.einsum('ni,ni->n', T[:, 0], np.cross(T[:, 1], T[:, 2])) / 6.
    S = T.sum(axis=1)
    m2 = np.einsum('n,nai,naj->ij', det / 20., T, T) + np.einsum('n,ni,nj->ij', det / 20., S, S)
    I = rho * geom.inertia_from_moments(m2) - c17.huygens(m, h['cob']) + c17.huygens(m, wc - h['cob'])
    for i, n in enumerate(('XX', 'YY', 'ZZ')):
        same('immersed-inertia', 'I' + n, I[i, i], 0, k=1, rel=6e-4)
        same('immersed-inertia', 'R' + n, np.sqrt(I[i, i] / m), p3 + 1e-4 * s * 1e-1, k=0)
    if rep:
        txt = open(rep).read() if os.path.isfile(rep) else ''
        ctx.check('report-file', 'a former report' not in txt, what + 'the former content of the report file is still in it')
        ctx.check('report-file', numbers(txt) == L and re.search('(?m)' + re.escape(os.path.abspath(name)) + '$', txt) is not None, what + 'the report file differs from what is printed')
        body = txt[txt.find('HYDROSTATIC REPORT'):].strip()
        ctx.check('report-file', len(body) > 500 and body in out, what + 'the report file differs from what is printed')
    left = set(os.listdir('.')) - {name.split(os.sep)[0], 'out.nem'} - ({rep} if rep else set())
    ctx.check('report-file', not left, what + 'other files are written: %r' % left)


def k_needs(ctx):
    """Without the position of the centre of gravity, the computation is refused."""
    rng = ctx.rng
    V, F, d = c19.ship(rng)
    V = np.round(V - [0, 0, V[:, 2].min() + .4 * np.ptp(V[:, 2])], 6) + 0.
    c21.WRITERS['nem']('in.nem', V, F, rng)
    args = ['in.nem', '-hs', '-o', 'o.nem'] + (['-mdisp', '1.'] if ctx.idx % 2 else [])
    err, out = cli(args)
    ctx.distinct(V, tuple(args))
    ctx.sample = {'error': repr(err)}
    ctx.check('needs-cog', isinstance(err, Exception) and 'zcog' in str(err) and not os.path.exists('o.nem') and 'K33' not in out, 'without -cog nor -zcog: %r' % (err,))


def blocks(txt):
    out = []
    for b in txt.split('Inertial parameters for')[1:]:
        n = [float(x) for x in re.findall(r'(?<![\w.*])-?\d+\.?\d*(?:E[+-]\d+)?', b.split('Expressed')[0])]
        p = [float(x) for x in re.findall(r'-?\d+\.\d+E[+-]\d+', b.split('Expressed')[1])[:3]]
        out.append((b, n, p))
    return out


def k_inertia(ctx):
    from meshmagick import densities
    rng = ctx.rng
    V, F = small_mesh(rng, closed=True)
    V = np.round(V * float(rng.choice([1, 1, 10.])), 6) + 0.
    name, fmt, V, F = put(V, F, rng)
    groups, maps = transform_options(rng, .2) if rng.random() < .5 else ([], [])
    args = list(groups)
    plain, shell = rng.random() < .6, rng.random() < .5
    if not (plain or shell):
        plain = True
    if plain:
        args.append([nm(rng, '-pi', '--plain-inertia')])
    if shell:
        args.append([nm(rng, '-si', '--shell-inertia')])
    rho = th = None
    k = rng.random()
    if k < .4:
        rho = round(float(rng.uniform(1, 9000)), 1)
        args.append(['--rho-medium', '%.1f' % rho])
    elif k < .7:
        name_ = str(rng.choice(sorted(TABLE)))
        rho = TABLE[name_][0]
        args.append(['--rho-medium', name_ if rng.random() < .7 else name_.lower()])
    if rng.random() < .5:
        th = round(float(rng.uniform(.001, .1)), 3) if rng.random() < .5 else float('%.3e' % 10 ** rng.uniform(-5, 0))
        args.append(['--thickness', '%.8f' % th])
    out_ = rng.random() < .5
    if out_:
        args.append(['-o', 'out.nem'])
    if maps:
        args.append([nm(rng, '-i', '--info')])
    W = V
    if maps:
        from mon.checks.c23 import transform_options as _  # noqa  (the order of the maps is that of the options list, already the order of the program)
        for f in maps:
            W = f(W)
    args = [name] + shuffle(args, rng)
    ctx.distinct(V, F, tuple(args))
    ctx.sample = {'command line': ' '.join(args)}
    err, txt = cli(args)
    if not ctx.check('ran', err is None, '%s: %r' % (' '.join(args), err)):
        return
    B = blocks(txt)
    if not ctx.check('plain' if plain else 'shell', len(B) == plain + shell, '%d reports of inertia for %d requested' % (len(B), plain + shell)):
        return
    B = iter(B)
    for kind, on in (('plain', plain), ('shell', shell)):
        if not on:
            continue
        b, n, p = next(B)
        r = rho if rho is not None else {'plain': 1023., 'shell': 7850.}[kind]
        t = th if th is not None else .02
        if not ctx.check(kind, ('uniform distribution' in b) == (kind == 'plain'), kind + ': reported as another distribution'):
            continue
        head = [r] + ([t] if kind == 'shell' else [])
        got, n = n[:len(head)], n[len(head):]
        ctx.check(kind, np.allclose(got, head, rtol=0, atol=[.0501, 5.01e-4][:len(head)]), kind + ': density and thickness reported %r, expected %r' % (got, head))
        if kind == 'plain':
            m0, m1, m2 = geom.volume_moments(W, F)
            w = r
        else:
            m0, m1, m2 = geom.surface_moments(W, F)
            w = r * t
        M, C = w * m0, m1 / m0
        I = w * geom.inertia_from_moments(m2)
        if not ctx.check(kind, len(n) == 13, kind + ': %d numbers' % len(n)):
            continue
        s = geom.size(W)
        ctx.check(kind, abs(n[0] - M / 1000.) < 5.1e-4 + 1e-6 * abs(M) / 1000, kind + ': mass %g t, expected %g' % (n[0], M / 1000.))
        ctx.check(kind, np.abs(np.array(n[1:4]) - C).max() < 5.1e-4 + 1e-6 * s, kind + ': COG %r, expected %r' % (n[1:4], C))
        J = np.array(n[4:]).reshape(3, 3)
        at0 = np.abs(p).max() == 0
        atc = np.all(np.abs(np.array(p) - C) <= 6e-4 * np.abs(C) + 1e-9 * s)
        if not ctx.check(kind, at0 or atc, kind + ': expressed at %r, which is neither the origin nor the centre of gravity %r' % (p, C)):
            continue
        want = I if at0 else I - c17.huygens(M, C)
        ctx.check(kind, np.all(np.abs(J - want) <= 5.5e-4 * np.abs(want) + 1e-6 * abs(w) * abs(m0) * s * s), kind + ': inertia %r, expected %r' % (J.tolist(), want.tolist()))
    if out_:
        X, G = load('out.nem', 'nem')
        ctx.check('written', X.shape == W.shape and np.abs(X - W).max() < 5e-6 * (1 + s) and collected(G) == collected(F), 'the mesh written is not the mesh reported')


def k_info(ctx):
    rng = ctx.rng
    V, F = small_mesh(rng)
    name, fmt, V, F = put(V, F, rng)
    groups, maps = transform_options(rng, .3)
    W = V
    for f in maps:
        W = f(W)
    args = [name] + shuffle(groups + [[nm(rng, '-i', '--info')]], rng)
    ctx.distinct(V, F, tuple(args))
    ctx.sample = {'command line': ' '.join(args)}
    err, txt = cli(args)
    if not ctx.check('ran', err is None, '%s: %r' % (' '.join(args), err)):
        return
    nt = int(geom.is_tri(F).sum())
    for label, want in (('vertices', len(V)), ('faces', len(F)), ('triangles', nt), ('quadrangles', len(F) - nt)):
        got = re.findall(r'Number of %s:\s*(\d+)' % label, txt)
        ctx.check('info', got == [str(want)], 'number of %s: %r, expected %d' % (label, got, want))
    for a, ax in enumerate('xyz'):
        got = re.findall(r'%smin = (\S+)\s+%smax = (\S+)' % (ax, ax), txt)
        ctx.check('info', len(got) == 1 and abs(float(got[0][0]) - W[:, a].min()) < 2e-6 + 1e-9 * geom.size(W) and abs(float(got[0][1]) - W[:, a].max()) < 2e-6 + 1e-9 * geom.size(W),
                  'extent along %s: %r, expected %r' % (ax, got, (W[:, a].min(), W[:, a].max())))
    ctx.check('info', re.search(r'MESH NAME : in\b', txt) is not None, 'the name of the mesh is not reported')


# name -> (density of the table, physical range of the substance)
TABLE = {'CONCRETE': (2300., 2200, 2450), 'REINFORCED_CONCRETE': (2400., 2350, 2550), 'FRESH_WATER': (1000., 995, 1001), 'SALT_WATER': (1025., 1020, 1030),
         'SAND': (1600., 1400, 1700), 'STEEL': (7850., 7700, 8050), 'ALUMINUM': (2700., 2640, 2810), 'LEAD': (11350., 11300, 11400),
         'TITANIUM': (4500., 4400, 4550), 'POLYSTYRENE': (1050., 960, 1060), 'GASOLINE': (750., 710, 780), 'DIESEL_FUEL': (850., 820, 860),
         'ETHANOL': (789., 785, 795), 'AIR_20DEGC': (1.204, 1.19, 1.21), 'BUTANE': (2.7, 2.4, 2.75), 'PROPANE': (2.01, 1.8, 2.02),
         'HYDROGEN_-252DEGC': (70., 69, 72), 'NITROGEN_-195DEGC': (810., 800, 812)}


def k_mediums(ctx):
    from meshmagick import densities
    rng = ctx.rng
    c21.WRITERS['nem']('in.nem', *small_mesh(rng), rng)
    ctx.distinct(ctx.idx)
    names = densities.list_medium()
    ctx.check('mediums', sorted(names) == sorted(set(names)) and set(TABLE) <= set(names), 'list of mediums: %r' % (names,))
    for n in names:
        x = densities.get_density(n)
        ctx.check('mediums', densities.get_density(n.lower()) == x == densities.get_density(n.title()), '%s: the case of the name changes the density' % n)
        if n in TABLE:
            ctx.check('mediums', x == TABLE[n][0] and TABLE[n][1] <= x <= TABLE[n][2], '%s: %g kg/m3' % (n, x))
    for bad in ('', 'UNOBTAINIUM', 'STEE', 'STEEL ', None, 12):
        try:
            x = densities.get_density(bad)
        except KeyError:
            x = None
        ctx.check('mediums', x is None, 'a density for the unknown medium %r: %r' % (bad, x))
    names.append('X')
    ctx.check('mediums', 'X' not in densities.list_medium(), 'the list of mediums can be modified by its reader')
    err, txt = cli(['in.nem', '--list-medium'])
    got = dict(re.findall(r'\|(\S+)\s*\|\s*([\d.]+)\|', txt))
    ctx.check('mediums', err is None and {k: float(x) for k, x in got.items()} == {n: densities.get_density(n) for n in densities.list_medium()},
              '--list-medium: %r %r' % (err, got))
    for bad in ('UNOBTAINIUM', 'STEE'):
        err, txt = cli(['in.nem', '-pi', '--rho-medium', bad])
        ctx.check('mediums', err is not None and 'Mass =' not in txt, '--rho-medium %s: %r' % (bad, err))
