"""C20: writing a mesh and reading it back."""
import collections
import contextlib
import io
import os
import numpy as np
from mon import gens, geom

PROP = 'C20'
LEVEL = 'exploration'
RULE = ('Meshes of every generator (closed, open, mixed, unmerged panels, random faces, one to four faces, fewer vertices than '
        'coordinates, unused vertices, more than 100000 faces; coordinates of both signs, tiny, large, exactly zero; several '
        'integer types and memory orders) written in every writable format under every name of the format, read back, rewritten, '
        'and converted through chains of formats.  Vertices, faces and their order are compared with what was written.')
ASSUMPTIONS = ['Accuracy demanded of each format: the digits it writes (6 decimals for mar, nem, pnl, vtk, obj; 7 significant digits for hst, tec, nat, '
               'gdf, stl; 6 for dat) and single precision for vtk, vtp, vtu, obj, stl.',
               'Coordinates are smaller than 1e6; for stl, vertices are further apart than the accuracy.',
               'The diodore-dat writer puts the extension in upper case: the file is looked for under that name.']
REQUIRED = ('vertices', 'faces', 'triangles', 'pure', 'rewrite', 'chain', 'stl', 'gdf', 'driver', 'large')

# format -> (names, kind, absolute, relative accuracy)
F32 = 1.2e-7
FORMATS = {
    'mar': (('mar', 'nemoh'), 'indexed', 5.1e-7, 0.),
    'gdf': (('gdf', 'wamit'), 'panels', 0., 5.1e-7),
    'dat': (('diodore-dat',), 'sorted', 0., 5.1e-6),
    'hst': (('hst', 'hydrostar'), 'indexed', 0., 5.1e-7),
    'nat': (('nat', 'natural'), 'indexed', 0., 5.1e-7),
    'stl': (('stl',), 'stl', 0., 5.1e-7 + F32),
    'vtu': (('vtu',), 'indexed', 0., F32),
    'vtp': (('vtp',), 'indexed', 0., F32),
    'vtk': (('vtk', 'paraview-legacy'), 'indexed', 5.1e-7, F32),
    'tec': (('tec', 'tecplot'), 'indexed', 0., 5.1e-7),
    'nem': (('nem', 'nemoh_mesh'), 'indexed', 5.1e-7, 0.),
    'pnl': (('pnl', 'hams'), 'indexed', 5.1e-7, 0.),
    'obj': (('obj',), 'indexed', 5.1e-7, F32),
}
N = {'quick': 45, 'thorough': 600}


def preload():
    import vtk  # noqa


def cases(tier, seed):
    out = [('large', i, {'format': f}) for i, f in enumerate(sorted(FORMATS))]
    i = 0
    for k in range(N[tier]):
        for f in sorted(FORMATS):
            out.append(('round-trip', i, {'format': f, 'tiny': k % 4 == 0}))
            i += 1
    out += [('chain', k, {}) for k in range(2 * N[tier])]
    return out


def mesh(rng, tiny=False):
    k = int(rng.integers(6))
    if tiny:
        V, F = gens.soup(rng, int(rng.integers(1, 5)), rng.choice([0., .5, 1.]))
        if rng.random() < .3:                            # the smallest mesh
            V, F = rng.normal(size=(3, 3)), np.array([[0, 1, 2, 0]])
        d = 'tiny'
    elif k < 3:
        V, F, d = gens.solid(rng)
        if k == 2:
            V, F = gens.open_part(V, F, rng)
            d += '/open'
    elif k == 3:
        V, F, d = gens.solid(rng)
        V, F = gens.panels(V, F)
        d = 'panels'
    elif k == 4:
        V, F = gens.soup(rng, int(rng.integers(5, 40)), rng.random())
        d = 'soup'
    else:
        V, F = gens.soup(rng, int(rng.integers(1, 6)), rng.random())
        V = np.vstack([V, rng.normal(size=(int(rng.integers(1, 5)), 3))])
        d = 'unused'
    if rng.random() < .2:                                # faces repeated, or both sides of a plate
        G = F[rng.random(len(F)) < .3]
        F = np.concatenate([F, G if rng.random() < .3 else G[:, ::-1] if rng.random() < .8 else np.roll(G, 1, axis=1)[G[:, 0] != G[:, 3]]])
        d += '/doubled'
    s = rng.random()
    if s < .25:
        V = V * 10 ** rng.uniform(-3, 3)
    elif s < .4:
        V = V + rng.normal(size=3) * 10 ** rng.uniform(0, 4)
    elif s < .5:
        V = np.round(V)
    if rng.random() < .3:
        V[rng.random(V.shape) < .1] = 0.
    if rng.random() < .1:
        V[rng.random(V.shape) < .1] = -0.
    if rng.random() < .15:
        V[rng.random(V.shape) < .2] *= 1e-9
    V = np.clip(V, -9e5, 9e5)
    return np.array(V, float), np.array(F, int), d


def dress(V, F, rng):
    """Other legal array layouts."""
    k = int(rng.integers(5))
    if k == 0:
        return np.asfortranarray(V), np.asfortranarray(F)
    if k == 1:
        return V.copy(), F.astype(np.int32)
    if k == 2:
        return np.repeat(V, 2, axis=0)[::2], F.astype(np.int64)
    return V.copy(), F.copy()


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def filename(fmt, rng):
    stem = str(rng.choice(['mesh', 'a b', 'x.y', 'M', 'sub/dir.d/m']))
    if '/' in stem:
        os.makedirs(os.path.dirname(stem), exist_ok=True)
    return stem + '.' + (fmt.upper() if fmt == 'dat' or rng.random() < .1 else fmt)


def save(name, V, F, fmt, rng):
    from meshmagick import mmio
    V, F = dress(V, F, rng)
    v0, f0 = V.copy(), F.copy()
    alias = str(rng.choice(FORMATS[fmt][0]))
    if rng.random() < .7:
        quiet(mmio.write_mesh, name, V, F, alias)
    else:
        quiet(getattr(mmio, 'write_' + fmt.upper()), name, V, F)
    return np.array_equal(V, v0) and np.array_equal(F, f0)


def load(name, fmt, rng):
    from meshmagick import mmio
    alias = str(rng.choice(FORMATS[fmt][0]))
    if rng.random() < .7:
        return quiet(mmio.load_mesh, name, alias)
    return quiet(getattr(mmio, 'load_' + fmt.upper()), name)


def tol(V, fmt):
    _, _, a, r = FORMATS[fmt]
    return a + r * np.abs(V) + 1e-300


def cyc(f):
    f = [int(i) for i in f]
    if f[0] == f[3]:
        f = f[:3]
    k = f.index(min(f))
    return tuple(f[k:] + f[:k])


def judge(ctx, V, F, W, G, fmt, t, d, oracle=None):
    """(W, G) was read where (V, F) was written; t is the accuracy array."""
    kind = FORMATS[fmt][1]
    o = oracle
    W, G = np.asarray(W), np.asarray(G)
    if not ctx.check(o or 'faces', W.ndim == 2 and W.shape[1] == 3 and G.ndim == 2 and G.shape[1] == 4 and G.dtype.kind == 'i'
                     and W.dtype.kind == 'f', '%s %s: arrays of shape %s and %s' % (fmt, d, W.shape, G.shape)):
        return False
    if not ctx.check(o or 'faces', len(G) == 0 or (G.min() >= 0 and G.max() < len(W)), '%s %s: vertex index out of range' % (fmt, d)):
        return False
    if kind == 'stl':
        return judge_stl(ctx, V, F, W, G, t, d, o or 'stl')
    if not ctx.check(o or 'faces', len(G) == len(F), '%s %s: %d faces written, %d read' % (fmt, d, len(F), len(G))):
        return False
    tri = F[:, 0] == F[:, 3]
    if kind == 'panels':
        # corner by corner: a triangle comes back with its repeated corner
        return ctx.check(o or 'gdf', bool((np.abs(W[G] - V[F]) <= t[F]).all()), '%s %s: the corners of the panels moved by %g' % (
            fmt, d, np.abs(W[G] - V[F]).max()))
    ok = ctx.check(o or 'vertices', W.shape == V.shape and bool((np.abs(W - V) <= t).all()), '%s %s: vertices %s read %s, off by %g' % (
        fmt, d, V.shape, W.shape, np.abs(W - V).max() if W.shape == V.shape else np.nan))
    if kind == 'sorted':
        a = [cyc(f) for f in F]
        b = [cyc(f) for f in G]
        ok &= ctx.check(o or 'faces', collections.Counter(a) == collections.Counter(b), '%s %s: other faces' % (fmt, d))
        for n in (3, 4):
            ok &= ctx.check(o or 'faces', [x for x in a if len(x) == n] == [x for x in b if len(x) == n], '%s %s: order of the faces' % (fmt, d))
        return ok
    ok &= ctx.check(o or 'triangles', bool(np.array_equal(G[:, 0] == G[:, 3], tri)), '%s %s: %d triangles written, %d read (first and last '
                    'index equal)' % (fmt, d, tri.sum(), (G[:, 0] == G[:, 3]).sum()))
    same = np.array_equal(G, F) or all(cyc(f) == cyc(g) for f, g in zip(F, G))
    ok &= ctx.check(o or 'faces', same, '%s %s: other faces' % (fmt, d))
    return ok


def judge_stl(ctx, V, F, W, G, t, d, o):
    from scipy.spatial import cKDTree
    used = np.unique(F)
    dist, near = cKDTree(V[used]).query(W)
    if not ctx.check(o, len(W) == 0 or bool((np.abs(W - V[used][near]) <= 2 * t[used][near] + 2e-8).all()), 'stl %s: a vertex moved by %g' % (d, dist.max() if len(dist) else 0)):
        return False
    ctx.check(o, bool((G[:, 0] == G[:, 3]).all()), 'stl %s: a face is not a triangle' % d)
    got = collections.Counter(cyc(list(used[near[g[:3]]]) + [used[near[g[0]]]]) for g in G)
    rest = collections.Counter(got)
    bad = 0
    for f in F:
        f = [int(i) for i in f]
        if f[0] == f[3]:
            ways = [[cyc(f)]]
        else:
            a, b, c, e = f
            ways = [[cyc([a, b, c, a]), cyc([a, c, e, a])], [cyc([a, b, e, a]), cyc([b, c, e, b])]]
        for w in ways:
            if all(rest[x] > 0 for x in w):
                for x in w:
                    rest[x] -= 1
                break
        else:
            bad += 1
    return ctx.check(o, bad == 0 and sum(rest.values()) == 0, 'stl %s: %d faces are not covered, %d triangles are superfluous' % (d, bad, sum(rest.values())))


def separated(V, F, t):
    """Vertices that faces use are further apart than the accuracy, no face is flat."""
    from scipy.spatial import cKDTree
    U = V[np.unique(F)]
    r = 6 * float(t.max()) + 1e-6
    if cKDTree(U).query_pairs(r * 2):
        return False
    T = np.concatenate([V[F[:, [0, 1, 2]]], V[F[:, [0, 2, 3]]][F[:, 0] != F[:, 3]]])
    a = np.linalg.norm(geom.tri_vec_area(T), axis=1)
    return bool((a > r * geom.extent(U)).all())


def run(ctx):
    rng = ctx.rng
    if ctx.kind == 'large':
        return large(ctx)
    if ctx.kind == 'chain':
        return chain(ctx)
    fmt = ctx.params['format']
    V, F, d = mesh(rng, ctx.params['tiny'])
    t = tol(V, fmt)
    if fmt == 'stl' and not separated(V, F, t):
        ctx.saw('stl: not separated')
        return
    name = filename(fmt, rng)
    ctx.distinct(fmt, V, F)
    ctx.saw(fmt)
    ctx.sample = {'format': fmt, 'mesh': d, 'nv': len(V), 'nf': len(F), 'file': name}
    ctx.check('pure', save(name, V, F, fmt, rng), '%s %s: the writer modifies its arguments' % (fmt, d))
    ctx.check('driver', os.path.isfile(name) and os.path.getsize(name) > 0, '%s: no file' % fmt)
    W, G = load(name, fmt, rng)
    if not judge(ctx, V, F, W, G, fmt, t, d):
        return
    # a mesh object accepts what was read
    if fmt != 'gdf':
        from meshmagick.mesh import Mesh
        m = Mesh(W, G)
        ctx.check('driver', m.nb_faces == len(G) and m.nb_vertices == len(W), fmt + ': Mesh of what was read')
    # writing what was read, and reading it again, changes nothing more
    save('again.' + fmt.upper(), W, G, fmt, rng)
    X, H = load('again.' + fmt.upper(), fmt, rng)
    if fmt == 'stl':
        ctx.check('rewrite', X.shape == W.shape and H.shape == G.shape, 'stl: rewriting changes the counts')
    elif fmt == 'gdf':
        ctx.check('rewrite', np.array_equal(X[H], W[G]), 'gdf %s: rewriting changes the mesh' % d)
    else:
        ctx.check('rewrite', np.array_equal(X, W) and np.array_equal(H, G), '%s %s: rewriting changes the mesh' % (fmt, d))


def chain(ctx):
    """Through several formats that keep the connectivity."""
    rng = ctx.rng
    V, F, d = mesh(rng, rng.random() < .2)
    fmts = [str(f) for f in rng.permutation([f for f in FORMATS if f not in ('stl', 'gdf')])[:int(rng.integers(2, 5))]]
    end = str(rng.choice(['', 'stl', 'gdf']))
    W, G = V, F
    t = np.zeros_like(V)
    ctx.distinct(V, F, fmts)
    ctx.sample = {'formats': fmts, 'mesh': d}
    for i, f in enumerate(fmts):
        n = 'c%d.%s' % (i, f.upper())
        save(n, W, G, f, rng)
        W, G = load(n, f, rng)
        t = t + 1.01 * tol(V, f)
    if 'dat' in fmts:
        tri = F[:, 0] == F[:, 3]
        F = np.concatenate([F[tri], F[~tri]])
    judge(ctx, V, F, W, G, fmts[-1], t, 'after %r' % fmts, 'chain')
    if end == 'gdf' or (end == 'stl' and separated(V, F, t + tol(V, 'stl'))):
        save('end.' + end, W, G, end, rng)
        W, G = load('end.' + end, end, rng)
        judge(ctx, V, F, W, G, end, t + 1.01 * tol(V, end), 'after %r' % fmts, 'chain')


def large(ctx):
    """More than 100000 vertices and faces (wide index fields)."""
    rng = ctx.rng
    fmt = ctx.params['format']
    n = 318
    x, y = np.meshgrid(np.arange(n + 1.), np.arange(n + 1.), indexing='ij')
    V = np.column_stack([x.ravel() - 40., y.ravel() * .5, np.sin(.1 * x).ravel()])
    i, j = (a.ravel() for a in np.meshgrid(np.arange(n), np.arange(n), indexing='ij'))
    a = i * (n + 1) + j
    F = np.column_stack([a, a + n + 1, a + n + 2, a + 1])
    F[::7, 3] = F[::7, 0]
    if fmt in ('stl', 'gdf'):
        F = F[:34000] if fmt == 'stl' else F
        V = V[:F.max() + 1]
    ctx.distinct(fmt)
    save('large.' + fmt.upper(), V, F, fmt, rng)
    W, G = load('large.' + fmt.upper(), fmt, rng)
    judge(ctx, V, F, W, G, fmt, tol(V, fmt), 'large', 'large')
