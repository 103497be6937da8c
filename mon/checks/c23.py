"""C23: one command line is the documented sequence of operations."""
import contextlib
import io
import math
import os
import re
import subprocess
import sys
import numpy as np
from mon import core, gens, geom
from mon.checks import c21
from mon.checks.c20 import quiet

PROP = 'C23'
LEVEL = 'exploration'
RULE = ('Random command lines (every transformation, healing, plane, clipping, symmetry, concatenation and format option, repeated, given in any order, '
        'short and long names, planes by key, by four scalars, by index of --plane, by default) run by the real main() on random meshes in random '
        'formats.  Expected meshes: closed-form affine maps and reflections for the transformation options; the library operations in '
        'the documented order for the others.  Input files, the directory, exceptions and exit codes are watched.')
ASSUMPTIONS = ['Order of the operations: load, concatenate, merge, mirror, symmetrize, heal mesh or normals, translate (-t -tx -ty -tz), rotate '
               '(-r -rx -ry -rz), scale (-s -sx -sy -sz), flip, triangulate, clip in the order of the planes (as in the program; --help says that '
               'scaling comes after translations).',
               'For merging, healing, symmetry, triangulation and clipping, the reference is the library call, judged by C06-C12.']
REQUIRED = ('affine', 'pipeline', 'plane-forms', 'output', 'input-kept', 'refused', 'process', 'lid')
N = {'quick': 400, 'thorough': 3000}
KEYS = {'Oxy': (0, 0, 1), 'Oxz': (0, 1, 0), 'Oyz': (1, 0, 0), '/Oxy': (0, 0, -1), '/Oxz': (0, -1, 0), '/Oyz': (-1, 0, 0)}
IN = ('mar', 'nat', 'msh22', 'tec', 'nem', 'gdf', 'vtp', 'pnl', 'hst')
OUT = {'mar': ('mar', 'nemoh'), 'nem': ('nem', 'nemoh_mesh'), 'vtp': ('vtp',), 'nat': ('nat', 'natural'), 'tec': ('tec', 'tecplot'), 'hst': ('hst', 'hydrostar'),
       'pnl': ('pnl', 'hams'), 'vtu': ('vtu',)}


def preload():
    import vtk  # noqa
    from meshmagick import cli  # noqa
    vtk.vtkObject.GlobalWarningDisplayOff()


def cases(tier, seed):
    n = N[tier]
    out = [('affine', k, {}) for k in range(n)] + [('pipeline', k, {}) for k in range(n)]
    out += [('forms', k, {}) for k in range(n // 4)] + [('refuse', k, {}) for k in range(max(4, n // 20))]
    out += [('files', k, {}) for k in range(n // 4)] + [('lid', k, {}) for k in range(max(4, n // 30))]
    out += [('process', k, {}) for k in range(4 if tier == 'quick' else 12)]
    return out


def cli(args):
    """main() with this command line.  Returns (exception or None, standard output)."""
    from meshmagick import cli as c
    old = sys.argv
    sys.argv = ['meshmagick'] + [str(a) for a in args]
    out = io.StringIO()
    err = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            c.main()
    except SystemExit as e:
        if e.code not in (0, None):
            err = e
    except Exception as e:
        err = e
    finally:
        sys.argv = old
    return err, out.getvalue()


def f6(x):
    return '%.6f' % x


def small_mesh(rng, closed=None):
    V, F, d = gens.solid(rng)
    if closed is False or (closed is None and rng.random() < .3):
        V, F = gens.open_part(V, F, rng)
    V = V * (rng.uniform(.5, 3) / geom.extent(V)) + rng.normal(size=3) * rng.choice([0, .2, 5.])
    u, F = np.unique(F, return_inverse=True)
    return np.round(V[u], 6) + 0., F.reshape(-1, 4)


def put(V, F, rng, stem='in', fmt=None):
    """Writes a mesh file with the independent writers; returns (name, format name, what the library reads in it)."""
    from meshmagick import mmio
    fmt = fmt or str(rng.choice(IN))
    ext = 'msh' if fmt == 'msh22' else fmt
    name = stem + '.' + ext
    c21.WRITERS[fmt](name, V, F, rng)
    W, G = quiet(mmio.load_mesh, name, ext)
    return name, ext, np.array(W, float), np.array(G, int)


def target(rng, stem='out'):
    fmt = str(rng.choice(sorted(OUT)))
    if rng.random() < .3:
        alias = str(rng.choice(OUT[fmt]))
        name = stem + str(rng.choice(['', '.bin', '.' + fmt]))
        return name, alias, [str(rng.choice(['-ofmt', '--output-format'])), alias, str(rng.choice(['-o', '--outfilename'])), name]
    name = stem + '.' + (fmt if rng.random() < .8 else fmt.upper())
    return name, fmt, [str(rng.choice(['-o', '--outfilename'])), name]


def acc(V, fmt):
    return 2e-6 + 1.5e-6 * (np.abs(V).max() if len(V) else 0)


def load(name, fmt):
    from meshmagick import mmio
    V, F = quiet(mmio.load_mesh, name, fmt)
    return np.array(V, float), np.array(F, int)


def shuffle(groups, rng):
    order = rng.permutation(len(groups))
    return [a for k in order for a in groups[k]]


def nm(rng, *names):
    return str(rng.choice(names))


def plane_args(rng, planes, key_only=False, nn=None):
    """A random plane: (command line words, normal, c); planes are those of --plane."""
    k = rng.random()
    if planes and k < .35:
        i = int(rng.integers(len(planes)))
        return [str(i)], planes[i][0], planes[i][1]
    if k < .6 or key_only:
        key = str(rng.choice(sorted(KEYS)))
        return [key], np.array(KEYS[key], float), 0.
    n = rng.normal(size=3) if nn is None else nn
    w = [f6(x) for x in n] + [f6(rng.normal() * .3)]
    v = np.array([float(x) for x in w])
    return w, v[:3] / np.linalg.norm(v[:3]), v[3]


def transform_options(rng, p=.35):
    """Options and the map V -> V' that they mean."""
    groups, maps = [], []

    def num(a=2.):
        return float(f6(rng.normal() * a))
    if rng.random() < p:
        t = [num() for _ in range(3)]
        groups.append([nm(rng, '-t', '--translate')] + [f6(x) for x in t])
        maps.append(lambda V, t=np.array(t): V + t)
    for k, ax in enumerate('xyz'):
        if rng.random() < p * .6:
            x = num()
            groups.append([nm(rng, '-t' + ax, '--translate' + ax), f6(x)])
            maps.append(lambda V, d=x * np.eye(3)[k]: V + d)
    if rng.random() < p:
        a = [num(60.) for _ in range(3)] if rng.random() < .7 else [float(x) for x in rng.choice([0, 90, -90, 180, 45], 3)]
        groups.append([nm(rng, '-r', '--rotate')] + [f6(x) for x in a])
        R = geom.rot_fixed(*[math.radians(x) for x in a])
        maps.append(lambda V, R=R: V @ R.T)
    for k, ax in enumerate('xyz'):
        if rng.random() < p * .6:
            a = num(90.)
            groups.append([nm(rng, '-r' + ax, '--rotate' + ax), f6(a)])
            R = (geom.Rx, geom.Ry, geom.Rz)[k](math.radians(a))
            maps.append(lambda V, R=R: V @ R.T)
    for k, ax in enumerate(('', 'x', 'y', 'z')):
        if rng.random() < p * .6:
            s = float(f6(rng.uniform(.3, 2.5)))
            groups.append([nm(rng, '-s' + ax, '--scale' + ax), f6(s)])
            d = np.ones(3) * s if k == 0 else np.where(np.arange(3) == k - 1, s, 1.)
            maps.append(lambda V, d=d: V * d)
    return groups, maps


def run(ctx):
    return globals()['k_' + ctx.kind](ctx)


def start(ctx, name):
    with open(name, 'rb') as f:
        ctx.state[name] = f.read()


def finish(ctx, allowed):
    for n, b in ctx.state.items():
        ctx.check('input-kept', os.path.isfile(n) and open(n, 'rb').read() == b, 'the input file %s was modified' % n)
    extra = sorted(set(os.listdir('.')) - set(ctx.state) - set(allowed))
    ctx.check('input-kept', not extra, 'files appeared: %s' % extra)


def k_affine(ctx):
    rng = ctx.rng
    V, F = small_mesh(rng)
    name, fmt, V, F = put(V, F, rng)
    start(ctx, name)
    groups, maps = transform_options(rng)
    planes = []
    for _ in range(int(rng.choice([0, 0, 1, 2, 3]))):
        w, n, c = plane_args(rng, [])
        groups_p = [nm(rng, '-p', '--plane')] + w
        planes.append((n, c))
        groups.append(groups_p)
    # --plane options keep their relative order: they are re-sorted after the shuffle
    flip = False
    W = V
    if rng.random() < .35:
        w, n, c = plane_args(rng, planes)
        if rng.random() < .12:
            w, n, c = [], np.array([0., 0., 1.]), 0.
        groups.append(['--mirror'] + w)
        W = W - 2 * np.outer(W @ n - c, n)
        flip = not flip
    for f in maps:
        W = f(W)
    if rng.random() < .3:
        groups.append([nm(rng, '-fn', '--flip-normals')])
        flip = not flip
    out, ofmt, ow = target(rng)
    groups.append(ow)
    if rng.random() < .3:
        groups.append([nm(rng, '-ifmt', '--input-format'), fmt])
    q = rng.random() < .5
    if q:
        groups.append([nm(rng, '-q', '--quiet')])
    if rng.random() < .1:
        groups.append([nm(rng, '-i', '--info')])
        q = False
    is_p = [g[0] in ('-p', '--plane') for g in groups]
    order = [int(i) for i in rng.permutation(len(groups))]
    pl = sorted(i for i in order if is_p[i])
    order = [pl.pop(0) if is_p[i] else i for i in order]
    args = [name] + [a for i in order for a in groups[i]]
    err, text = cli(args)
    ctx.distinct(args, V)
    ctx.sample = {'command': ' '.join(args)}
    ctx.saw(*[g[0] for g in groups])
    if not ctx.check('affine', err is None, '%s: %r' % (' '.join(args), err)):
        return
    if not ctx.check('output', os.path.isfile(out), '%s: %s is not written' % (' '.join(args), out)):
        return
    X, G = load(out, ofmt)
    G2 = F[:, ::-1] if flip else F
    tol = acc(W, ofmt)
    ok = X.shape == W.shape and np.abs(X - W).max() <= tol
    ctx.check('affine', ok, '%s: vertices are off by %s (tolerance %g)' % (' '.join(args), np.abs(X - W).max() if X.shape == W.shape else X.shape, tol))
    ctx.check('affine', collected(G) == collected(G2), '%s: faces or orientations differ' % ' '.join(args))
    if q and '--mirror' not in args:
        ctx.check('output', ofmt in ('mar', 'nemoh') or text.strip() == '', '-q prints %r' % text[:200])
    finish(ctx, [out])


def collected(F):
    return sorted(geom.canon(tuple(int(i) for i in (q[:3] if q[0] == q[3] or q[2] == q[3] else q[1:] if q[0] == q[1] else q))) for q in F)


def reference(V, F, o):
    """The documented sequence, by library calls."""
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.mesh_clipper import MeshClipper
    m = Mesh(V.copy(), F.copy())
    m.heal_triangles()
    if o.get('cc') is not None:
        c = Mesh(o['cc'][0].copy(), o['cc'][1].copy())
        c.heal_triangles()
        m = m + c
    if o.get('md') is not None:
        m.merge_duplicates(atol=o['md'])
    if o.get('mirror') is not None:
        m.mirror(Plane(o['mirror'][0], o['mirror'][1]))
    for n, c in o.get('sym', ()):
        m.symmetrize(Plane(n, c))
    if o.get('hm'):
        m.heal_mesh()
    elif o.get('hn'):
        m.heal_normals()
    W = m.vertices.copy()
    for f in o['maps']:
        W = f(W)
    m = Mesh(W, m.faces.copy())
    if o.get('fn'):
        m.flip_normals()
    if o.get('tq'):
        m.triangulate_quadrangles()
    for n, c in o.get('clip', ()):
        m = MeshClipper(m, plane=Plane(n, c)).clipped_mesh
    return m.vertices.copy(), m.faces.copy()


def k_pipeline(ctx):
    rng = ctx.rng
    V, F = small_mesh(rng, closed=bool(rng.random() < .8))
    jitter = 0.
    if rng.random() < .3:
        V, F = gens.panels(V, F)
        jitter = float(rng.choice([0., 1e-4, 1e-2]))
        V = V + jitter * rng.uniform(-1, 1, V.shape)
    name, fmt, V, F = put(V, F, rng)
    start(ctx, name)
    o = {}
    groups, o['maps'] = transform_options(rng, .2)
    words = []
    planes = []
    for _ in range(int(rng.choice([0, 0, 1, 2, 3]))):
        w, n, c = plane_args(rng, [])
        planes.append((n, c))
        words.append([nm(rng, '-p', '--plane')] + w)
    if rng.random() < .25:
        V2, F2 = small_mesh(rng, closed=True)
        if rng.random() < .5:
            V2 = V2 + [9., 0, 0]
        ifmt = 'msh22' if fmt == 'msh' else fmt
        n2, _, V2, F2 = put(V2, F2, rng, 'second', ifmt)
        o['cc'] = (V2, F2)
        start(ctx, n2)
        groups.append([nm(rng, '-cc', '--concatenate-file'), n2])
    if rng.random() < (.9 if jitter else .3):
        if rng.random() < (.1 if jitter else .5):
            o['md'] = 1e-8
            groups.append([nm(rng, '-md', '--merge-duplicates')])
        else:
            o['md'] = float(rng.choice([1e-3, 1e-6, .05]))
            groups.append([nm(rng, '-md', '--merge-duplicates'), repr(o['md'])])
    if rng.random() < .15:
        w, n, c = plane_args(rng, planes)
        o['mirror'] = (n, c)
        groups.append(['--mirror'] + w)
    for _ in range(int(rng.choice([0, 0, 0, 1, 2]))):
        w, n, c = plane_args(rng, planes)
        if rng.random() < .2:
            w, n, c = [], np.array([0., 1., 0.]), 0.
        o.setdefault('sym', []).append((n, c))
        words.append([nm(rng, '-sym', '--symmetrize')] + w)
    k = rng.random()
    if k < .25:
        o['hm'] = True
        groups.append([nm(rng, '-hm', '--heal-mesh')])
    if k < .08 or .25 < k < .45:
        o['hn'] = True
        groups.append([nm(rng, '-hn', '--heal-normals')])
    if rng.random() < .2:
        o['fn'] = True
        groups.append([nm(rng, '-fn', '--flip-normals')])
    if rng.random() < .25:
        o['tq'] = True
        groups.append([nm(rng, '-tq', '--triangulate-quadrangles')])
    for _ in range(int(rng.choice([0, 0, 1, 1, 2]))):
        w, n, c = plane_args(rng, planes)
        if rng.random() < .3:
            w, n, c = [], np.array([0., 0., 1.]), 0.
        o.setdefault('clip', []).append((n, c))
        words.append([nm(rng, '-c', '--clip-by-plane')] + w)
    if rng.random() < .15:
        groups.append([nm(rng, '-i', '--info')])
    if rng.random() < .1:
        groups.append(['--quality'])
    if rng.random() < .4:
        groups.append(['-q'])
    out, ofmt, ow = target(rng)
    groups.append(ow)
    # repeated options keep their order, the others are anywhere
    seq = [('g', g) for g in groups] + [('w', None) for _ in words]
    seq = [seq[i] for i in rng.permutation(len(seq))]
    it = iter(words)
    args = [name] + [a for k, g in seq for a in (g if k == 'g' else next(it))]
    want = None
    try:
        want = quiet(reference, V, F, o)
    except Exception as e:
        fail = e
    err, text = cli(args)
    line = ' '.join(args)
    ctx.distinct(args, V)
    ctx.sample = {'command': line}
    ctx.saw(*[a for a in args if a.startswith('-') and a[1:2].isalpha()])
    if want is None:
        ctx.saw('refused by the library: %s' % type(fail).__name__)
        ctx.check('pipeline', type(err) is type(fail), '%s: %r, the library raises %r' % (line, err, fail))
        ctx.check('output', not os.path.exists(out), 'a failing command writes %s' % out)
        finish(ctx, [])
        return
    if not ctx.check('pipeline', err is None, '%s: %r' % (line, err)):
        return
    W, G = want
    if not len(G):
        return ctx.saw('empty result')
    if not ctx.check('output', os.path.isfile(out), '%s: %s is not written' % (line, out)):
        return
    X, H = load(out, ofmt)
    tol = acc(W, ofmt)
    same = X.shape == W.shape and H.shape == G.shape and np.abs(X - W).max() <= tol and collected(G) == collected(H)
    if not same and H.shape == G.shape:
        used, us2 = np.unique(G), np.unique(H)
        same = len(used) == len(us2) and match(W, G, X, H, 2 * tol)
    ctx.check('pipeline', same, '%s: %d vertices and %d faces, the same operations in the library give %d and %d%s' % (
        line, len(X), len(H), len(W), len(G), ', vertices off by %g' % np.abs(X - W).max() if X.shape == W.shape else ''))
    finish(ctx, [out])


def match(V1, F1, V2, F2, tol):
    return not any(len(r) for r in geom.match_faces(V1, F1, V2, F2, tol))


def k_forms(ctx):
    """The four ways of giving a plane are the same plane."""
    rng = ctx.rng
    V, F = small_mesh(rng, closed=True)
    name, fmt, V, F = put(V, F, rng)
    start(ctx, name)
    opt = str(rng.choice(['-c', '-sym', '--mirror']))
    if rng.random() < .5:
        key = str(rng.choice(sorted(KEYS)))
        w4 = [str(float(x)) for x in KEYS[key]] + ['0.']
        forms = {'key': [opt, key], 'scalars': [opt] + w4, 'index of key': ['-p', key, opt, '0'], 'index of scalars': ['-p'] + w4 + [opt, '0'],
                 'second plane': ['-p', 'Oyz', '-p', key, opt, '1'], 'first plane': ['-p', key, opt, '0', '-p', '1', '2', '3', '4'],
                 'key beside planes': ['-p', '1', '1', '0', '.2', opt, key], 'integers': [opt] + ['%d' % x for x in KEYS[key]] + ['0']}
        default = {'-c': 'Oxy', '-sym': 'Oxz', '--mirror': 'Oxy'}[opt]
        if key == default:
            forms['default'] = [opt]
            forms['default beside planes'] = ['-p', '1', '1', '0', '.2', opt]
    else:
        n = rng.normal(size=3)
        w4 = [f6(x) for x in n] + [f6(rng.normal() * .2)]
        s = float(rng.choice([2., .5, 7.]))
        forms = {'scalars': [opt] + w4, 'index': ['-p'] + w4 + [opt, '0'], 'third plane': ['-p', 'Oxy', '-p', '/Oxz', '-p'] + w4 + [opt, '2'],
                 'scaled normal': [opt] + ['%.9f' % (s * float(x)) for x in w4[:3]] + [w4[3]]}
    ref = None
    for k, a in forms.items():
        err, text = cli([name] + a + ['-o', 'o.mar', '-q'])
        if err is None:
            X, G = load('o.mar', 'mar')
            os.remove('o.mar')
        else:
            X = G = np.zeros((0, 4))
        if ref is None:
            ref = (k, X, G, type(err))
            if err is not None:
                ctx.saw('refused: %s' % type(err).__name__)
            continue
        same = type(err) is ref[3] and X.shape == ref[1].shape and G.shape == ref[2].shape and (err is not None or (
            np.abs(X - ref[1]).max() <= 3e-6 and match(ref[1], ref[2], X, G, 1e-5)))
        ctx.check('plane-forms', same, '%s and %s give different meshes for %s: %s' % (ref[0], k, ' '.join(forms[ref[0]]), ' '.join(a)))
        ctx.saw(opt + ' ' + k)
    ctx.distinct(opt, w4, V)
    ctx.sample = {'option': opt, 'forms': list(forms)}
    finish(ctx, ['o.mar'])


def k_files(ctx):
    """Which file is written, in which format."""
    rng = ctx.rng
    V, F = small_mesh(rng)
    os.makedirs('sub')
    name, fmt, V, F = put(V, F, rng, str(rng.choice(['in', 'sub/in', 'in.put', 'in put'])))
    start(ctx, name) if '/' not in name else None
    b = open(name, 'rb').read()
    k = int(rng.integers(6))
    ofmt = str(rng.choice(sorted(OUT)))
    alias = str(rng.choice(OUT[ofmt]))
    if k == 0:                                       # nothing is written unless asked for
        a, out = ['-t', '1', '2', '3'], None
    elif k == 1:                                     # the format only
        a, out = ['-ofmt', alias], os.path.splitext(name)[0] + '.' + alias
        if out == name:
            return
    elif k == 2:
        a, out = ['-o', 'res.' + ofmt], 'res.' + ofmt
        alias = ofmt
    elif k == 3:                                     # the format prevails over the extension
        other = str(rng.choice([x for x in OUT if x != ofmt]))
        a, out = ['-o', 'res.' + other, '-ofmt', alias], 'res.' + other
    elif k == 4:                                     # the input format prevails over the extension
        new = 'renamed' + str(rng.choice(['', '.xyz', '.stl', '.vtu']))
        os.rename(name, new)
        ctx.state.pop(name, None)
        a, out = ['-ifmt', fmt, '-o', 'sub/res.' + ofmt], 'sub/res.' + ofmt
        name, alias = new, ofmt
    else:                                            # over an existing file
        out = 'res.' + ofmt
        alias = ofmt
        with open(out, 'w') as f:
            f.write('junk ' * 50000)
        a = ['-o', out]
    before = {os.path.join(d, x) for d, _, fs in os.walk('.') for x in fs}
    err, text = cli([name] + a)
    line = ' '.join([name] + a)
    ctx.distinct(line, V)
    ctx.sample = {'command': line}
    after = {os.path.join(d, x) for d, _, fs in os.walk('.') for x in fs}
    if not ctx.check('output', err is None, '%s: %r' % (line, err)):
        return
    ctx.check('input-kept', open(name, 'rb').read() == b, line + ': the input was modified')
    new = {os.path.normpath(x) for x in after - before}
    if out is None:
        ctx.check('output', not new, '%s writes %s' % (line, new))
        return
    ctx.check('output', new <= {os.path.normpath(out)} and os.path.isfile(out), '%s writes %s instead of %s' % (line, new, out))
    if os.path.isfile(out):
        e, r = None, None
        try:
            X, G = load(out, alias)
        except Exception as exc:
            e = exc
        ctx.check('output', e is None and X.shape == V.shape and np.abs(X - V).max() <= acc(V, alias) and collected(G) == collected(F),
                  '%s: the file is not the mesh in format %s (%r)' % (line, alias, e))
    ctx.saw('files %d' % k)


def k_refuse(ctx):
    rng = ctx.rng
    V, F = small_mesh(rng, closed=True)
    name, fmt, V, F = put(V, F, rng)
    start(ctx, name)
    with open('noext', 'w') as f:
        f.write('0 0\n')
    start(ctx, 'noext')
    with open('a.xyz', 'w') as f:
        f.write('0 0\n')
    start(ctx, 'a.xyz')
    O = ['-o', 'out.mar']
    from argparse import ArgumentError  # noqa
    bad = [(['absent.mar'] + O, (IOError,)), (['absent.mar', '-ifmt', 'mar'] + O, (IOError,)), (['noext'] + O, (IOError,)), (['a.xyz'] + O, (IOError,)),
           ([name, '-ifmt', 'xyz'] + O, (IOError,)), ([name, '-cc', 'absent.' + fmt] + O, (IOError,)),
           ([name, '-o', 'out.xyz'], (IOError,)), ([name, '-o', 'out.mar', '-ofmt', 'xyz'], (IOError,)), ([name, '-o', 'out'], (IOError,)),
           ([name, '-o', 'out.msh'], (NotImplementedError,)), ([name, '-o', 'out.rad'], (NotImplementedError,)),
           ([name, '-c', 'Oxw'] + O, (KeyError,)), ([name, '-sym', 'Ozz'] + O, (KeyError,)), ([name, '--mirror', 'oxy'] + O, (KeyError,)),
           ([name, '-p', 'Oxw'] + O, (AssertionError,)), ([name, '-p', '1', '2'] + O, (AssertionError,)), ([name, '-p', 'a', 'b', 'c', 'd'] + O, (AssertionError,)),
           ([name, '-p', 'Oxy', '-c', '1'] + O, (AssertionError,)), ([name, '-p', 'Oxy', '-sym', '3'] + O, (AssertionError,)),
           ([name, '-p', 'Oxy', '--mirror', '-1'] + O, (AssertionError,)), ([name, '-c', '1', '2'] + O, (ValueError,)), ([name, '-sym', '1', '2', '3'] + O, (ValueError,)),
           ([name, '--mirror', '1', '0', '0'] + O, (ValueError,)), ([name, '-hs'] + O, (RuntimeError,)),
           ([name, '-t', '1', '2'] + O, (SystemExit,)), ([name, '-tx', 'abc'] + O, (SystemExit,)), ([name, '--nonsense'] + O, (SystemExit,)),
           ([name, '-s', '-2'] + O, (AssertionError,)), ([name, '--rho-medium', 'NOTHING'] + O, (SystemExit,))]
    keys = ['Oxy', 'Oxz', '/Oyz']
    for n in (1, 2, 3):
        for o in ('-c', '-sym', '--mirror'):
            for k in (-n, -1, n, n + 1, -n - 1):
                bad.append(([name] + sum((['-p', x] for x in keys[:n]), []) + [o, str(k)] + O, (AssertionError,)))
    for a, kinds in bad:
        err, _ = cli(a)
        # what is raised is not specified, only that the program does not end well
        ctx.check('refused', isinstance(err, Exception) or isinstance(err, SystemExit) and err.code not in (None, 0), '%s: %r, expected something like %s' % (' '.join(a), err, kinds[0].__name__))
        left = sorted(set(os.listdir('.')) - set(ctx.state))
        ctx.check('refused', not left, '%s: refused, but %s is written' % (' '.join(a), left))
        for n in left:
            os.remove(n)
        ctx.saw(type(err).__name__)
    ctx.distinct(V)
    ctx.sample = {'refused': len(bad)}
    finish(ctx, [])


def k_lid(ctx):
    """Lids are meshes of the given polygons in the plane z=0, added to the mesh."""
    rng = ctx.rng
    try:
        import gmsh, pygmsh  # noqa
    except Exception:
        ctx.saw('no gmsh')
        ctx.check('lid', True)
        return
    V, F = gens.barge(4, 3, 3, 10., 4., 3., 1.5)
    name, fmt, V, F = put(V, F, rng)
    start(ctx, name)
    nl = int(rng.integers(1, 3))
    args, area = [name, '-c'], []
    rings = []
    for k in range(nl):
        n = int(rng.integers(3, 8))
        t = np.sort(rng.uniform(0, 2 * np.pi, n)) + rng.uniform(0, 6)
        while np.diff(np.append(t, t[0] + 2 * np.pi)).max() > 2.6:
            t = np.sort(rng.uniform(0, 2 * np.pi, n))
        P = np.round(np.column_stack([np.cos(t), np.sin(t)]) * rng.uniform(.8, 1.4) + [20. * k - 10., 30.], 4)
        rings.append(P)
        x, y = P.T
        area.append(.5 * abs((x * np.roll(y, -1) - y * np.roll(x, -1)).sum()))
        args += ['-lid'] + ['%.4f' % c for c in P.ravel()]
    size = float(rng.uniform(.3, .9))
    if rng.random() < .7:
        args += ['-ms', f6(size)]
    args += ['-o', 'o.mar']
    err, text = cli(args)
    ctx.distinct(args)
    ctx.sample = {'command': ' '.join(args)}
    if not ctx.check('lid', err is None, '%s: %r' % (' '.join(args), err)):
        return
    X, G = load('o.mar', 'mar')
    hull, hf = quiet(reference, V, F, {'maps': [], 'clip': [(np.array([0, 0, 1.]), 0.)]})
    far = X[G][:, :, 1].min(axis=1) > 20.
    ctx.check('lid', (~far).sum() == len(hf) and match(hull, hf, X, G[~far], 1e-5), 'the mesh itself is not kept')
    L = G[far]
    ctx.check('lid', len(L) and np.abs(X[L][:, :, 2]).max() < 1e-9, 'the lid is not in the plane z=0')
    for k, P in enumerate(rings):
        near = L[np.abs(X[L][:, :, 0] - (20. * k - 10.)).max(axis=1) < 8.]
        a = geom.face_areas(X, near).sum()
        v = abs(geom.face_area_vec(X, near).sum(axis=0)[2])
        ctx.check('lid', abs(a - area[k]) < 1e-4 * area[k] and abs(v - area[k]) < 1e-4 * area[k], 'lid %d has area %g (%g oriented), the polygon %g' % (k, a, v, area[k]))
        for p in P:
            ctx.check('lid', np.abs(X[np.unique(near)][:, :2] - p).max(axis=1).min() < 1e-5, 'a corner of the polygon is not in the lid')
    ctx.saw('lids %d' % nl)


def k_process(ctx):
    """The program as a process: exit code and output file."""
    rng = ctx.rng
    V, F = small_mesh(rng, closed=True)
    name, fmt, V, F = put(V, F, rng, fmt='mar')
    t = [round(float(x), 3) for x in rng.normal(size=3)]
    run_ = [sys.executable, '-c', 'import sys; sys.path.insert(0, %r); from meshmagick.cli import main; main()' % core.REPO]
    r = subprocess.run(run_ + [name, '-t'] + [str(x) for x in t] + ['-o', 'o.nem'], capture_output=True, text=True)
    ctx.distinct(V)
    ctx.sample = {'exit': r.returncode}
    if ctx.check('process', r.returncode == 0 and os.path.isfile('o.nem'), r.stderr[-500:]):
        X, G = load('o.nem', 'nem')
        ctx.check('process', X.shape == V.shape and np.abs(X - V - t).max() < 2e-6 and collected(G) == collected(F), 'the process writes another mesh')
    r = subprocess.run(run_ + ['absent.mar', '-o', 'p.nem'], capture_output=True, text=True)
    ctx.check('process', r.returncode != 0 and not os.path.exists('p.nem'), 'a missing file ends with exit code %d' % r.returncode)
    r = subprocess.run(run_ + ['-v'], capture_output=True, text=True)
    ctx.check('process', r.returncode == 0 and re.search(r'version \d', r.stdout), '-v: %r' % r.stdout[:200])
    r = subprocess.run(run_ + ['-h'], capture_output=True, text=True)
    ctx.check('process', r.returncode == 0 and '--clip-by-plane' in r.stdout, '-h')
