"""C01: whatever the history of operations and queries, what a mesh reports is what its current geometry implies."""
import numpy as np
from mon import gens, geom, probe

PROP = 'C01'
LEVEL = 'exploration'
RULE = ('A case is a random history of mesh operations interleaved with queries on a generated mesh (closed solids, open '
        'parts, unmerged panels, warped quads, random faces, several bodies). After every operation the mesh is compared '
        'with a twin: a new Mesh built from the vertices and faces the mesh had before the operation, to which the same '
        'operation is applied, and a random part of the queries of the mesh is compared with the same queries of a new Mesh '
        'built from its present arrays. A case is non-trivial when at least 3 operations were applied.')
ASSUMPTIONS = ['The twin is built with the public constructor from copies of the public vertices and faces arrays.',
               'Normals and centers of faces smaller than 1e-7 of the squared mesh size are not compared.']
REQUIRED = ('coherent', 'operation-independent-of-history', 'coherent-final', 'left-behind-unchanged', 'left-behind-coherent')

NQ = {'quick': 480, 'thorough': 4000}
NALL = {'quick': 16, 'thorough': 60}     # per operation, histories 'every query, the operation, every query'
NBIG = {'quick': 4, 'thorough': 24}


def cases(tier, seed):
    out = [('big', i, {}) for i in range(NBIG[tier])]
    out += [('history', i, {}) for i in range(NQ[tier])]
    out += [('pair', i, {'op': op, 'pre': pre}) for i, (op, pre) in enumerate(
        (o, p) for o in OPS for p in sorted(probe.QUERIES) + ['all'] * NALL[tier])]
    return out


def plane(rng):
    from meshmagick.mesh import Plane
    k = rng.integers(5)
    if k < 3:
        return Plane(np.eye(3)[k], float(rng.choice([0., rng.uniform(-2, 2)])))
    return Plane(rng.normal(size=3), rng.uniform(-3, 3))


def jitter_vertices(m, rng):
    v = np.array(m.vertices)
    return v + rng.normal(size=v.shape) * .05 * np.ptp(v, axis=0).max()


# op name -> maker(mesh, rng) returning (description, function applied to a mesh and returning the mesh to go on with)
def op_simple(method, *args, **kw):
    def f(m):
        getattr(m, method)(*args, **kw)
        return m
    return '%s%r' % (method, args), f


def op_set(attr, value):
    def f(m):
        setattr(m, attr, value)
        return m
    return 'set %s' % attr, f


def op_fun(name, f):
    return name, f


def angle(rng):
    return float(rng.choice([0., np.pi / 2, np.pi, -np.pi / 2, rng.uniform(-4, 4), rng.uniform(-4, 4),
                             rng.choice([1e-3, -1e-5, 1e-7, 2 * np.pi])]))


def dist(rng):
    return float(rng.choice([0., rng.uniform(-5, 5), rng.uniform(-5, 5), rng.uniform(-5, 5), rng.choice([1e-3, -1e-6, 1e-8, 400.])]))


def factor(rng):
    return float(rng.choice([1., rng.uniform(.3, 3), rng.uniform(.3, 3), rng.uniform(.3, 3), 1 + 1e-4, 1 - 1e-7, 30.]))


def other_vertices(m, rng):
    """A new array of vertices: moved, tiny moves, or with more vertices than before."""
    k = int(rng.integers(4))
    v = np.array(m.vertices)
    if k == 0:
        return v + rng.choice([1e-5, 1e-7]) * rng.normal(size=v.shape) * np.ptp(v, axis=0).max()
    v = jitter_vertices(m, rng)
    if k == 1:
        v = np.concatenate([v, rng.normal(size=(int(rng.integers(1, 4)), 3))])
    return v


def other_faces(m, rng):
    """A new array of faces: fewer, renumbered, one of them reversed, turned, or replaced."""
    f = np.array(m.faces)
    k = int(rng.integers(6))
    if k == 0:
        return f[rng.permutation(len(f))[:max(1, len(f) - 1)]]
    if k == 1:
        return f[rng.permutation(len(f))]
    i = int(rng.integers(len(f)))
    if k == 2:
        f[i] = f[i][::-1]
    elif k == 3 and f[i, 0] != f[i, 3]:
        f[i] = np.roll(f[i], 1)
    elif k == 4:
        f[i] = f[int(rng.integers(len(f)))]
    else:
        f[i] = [f[i, 0], f[i, 1], f[i, 2], f[i, 0]]
    return f


OPS = {
    'rotate': lambda m, r: op_simple('rotate', [angle(r), angle(r), angle(r)]),
    'rotate_x': lambda m, r: op_simple('rotate_x', angle(r)),
    'rotate_y': lambda m, r: op_simple('rotate_y', angle(r)),
    'rotate_z': lambda m, r: op_simple('rotate_z', angle(r)),
    'rotate_matrix': lambda m, r: op_simple('rotate_matrix', geom.rot_axis_angle(r.normal(size=3), r.uniform(0, 3))),
    'translate': lambda m, r: op_simple('translate', [dist(r), dist(r), dist(r)]),
    'translate_x': lambda m, r: op_simple('translate_x', dist(r)),
    'translate_y': lambda m, r: op_simple('translate_y', dist(r)),
    'translate_z': lambda m, r: op_simple('translate_z', dist(r)),
    'scale': lambda m, r: op_simple('scale', factor(r)),
    'scalex': lambda m, r: op_simple('scalex', factor(r)),
    'scaley': lambda m, r: op_simple('scaley', factor(r)),
    'scalez': lambda m, r: op_simple('scalez', factor(r)),
    'flip_normals': lambda m, r: op_simple('flip_normals'),
    'merge_duplicates': lambda m, r: op_simple('merge_duplicates', atol=float(r.choice([1e-8, 1e-5]))),
    'heal_normals': lambda m, r: op_simple('heal_normals'),
    'remove_unused_vertices': lambda m, r: op_simple('remove_unused_vertices'),
    'heal_triangles': lambda m, r: op_simple('heal_triangles'),
    'remove_degenerated_faces': lambda m, r: op_simple('remove_degenerated_faces', float(r.choice([1e-5, .5, .9]))),
    'heal_mesh': lambda m, r: op_simple('heal_mesh'),
    'triangulate_quadrangles': lambda m, r: op_simple('triangulate_quadrangles'),
    'symmetrize': lambda m, r: op_simple('symmetrize', plane(r)),
    'mirror': lambda m, r: op_simple('mirror', plane(r)),
    'set_vertices': lambda m, r: op_set('vertices', other_vertices(m, r)),
    'set_faces': lambda m, r: op_set('faces', other_faces(m, r)),
    'copy': lambda m, r: op_fun('copy', lambda x: x.copy()),
    'add': lambda m, r: (lambda t: op_fun('add', lambda x: x + moved(x, t)))(r.uniform(-9, 9, 3)),
    'extract_faces': lambda m, r: (lambda ids: op_fun('extract_faces', lambda x: x.extract_faces(ids)))(
        np.sort(r.permutation(m.nb_faces)[:max(1, int(m.nb_faces * .8))])),
    'set_misc': lambda m, r: op_set('name', 'other'),
}


def moved(x, t):
    from meshmagick.mesh import Mesh
    return Mesh(np.array(x.vertices) + t, np.array(x.faces))


def start_mesh(rng, big=False):
    if big:
        V, F = gens.sphere(40, 60) if rng.random() < .5 else gens.cylinder(80, 1., 2., 40, 20)
        if rng.random() < .5:
            V, F = gens.split_some(V, F, rng)
        return V, F, 'big'
    k = int(rng.integers(9))
    if k == 0:
        V, F = gens.soup(rng, int(rng.integers(1, 12)))
        return V, F, 'soup'
    V, F, d = gens.solid(rng)
    if k == 1:
        V, F = gens.open_part(V, F, rng)
        d += '/open'
    elif k == 2:
        V, F = gens.panels(V, F)
        d += '/panels'
    elif k == 3:
        V = V + rng.normal(size=V.shape) * .05 * np.ptp(V, axis=0).max()
        d += '/warped'
    elif k == 4:
        W, G, e = gens.solid(rng, kind='none')
        V, F = gens.union((V, F), (W + np.ptp(V, axis=0).max() * 3 + 10, G))
        d += '+' + e
    elif k == 5:
        flip = rng.random(len(F)) < .3
        if rng.random() < .5:          # exactly one face
            flip[:] = False
            flip[rng.integers(len(F))] = True
        F[flip] = F[flip][:, ::-1]
        d += '/mixed-orientation'
    elif k == 6:                       # triangles described the wrong way, unused vertices
        for i in np.where(geom.is_tri(F))[0]:
            if rng.random() < .5:
                a, b, c = F[i, :3]
                F[i] = [(a, b, c, c), (a, a, b, c), (a, b, b, c)][rng.integers(3)]
        V = np.concatenate([V, rng.normal(size=(3, 3))])
        d += '/unhealed'
    return V, F, d


def twin(m):
    from meshmagick.mesh import Mesh
    return Mesh(np.array(m.vertices), np.array(m.faces))


def compare(ctx, m, names, oracle, hist):
    V, F = np.array(m.vertices), np.array(m.faces)
    t = twin(m)
    for n in names:
        a = probe.ask(m, n)
        b = probe.ask(t, n)
        probe.same(ctx, oracle, n, a, b, V, F, 'after %s' % ' ; '.join(hist[-8:]))
        ctx.saw('query ' + n)


def apply(ctx, m, name, hist):
    """Applies one operation to the mesh and to its twin.  Returns the mesh to go on with, or None."""
    t = twin(m)
    desc, f = OPS[name](m, ctx.rng)
    hist.append(desc)
    ra = rb = None
    try:
        m2 = f(m)
    except Exception as exc:
        ra = type(exc).__name__
    try:
        t2 = f(t)
    except Exception as exc:
        rb = type(exc).__name__
    ctx.saw('op ' + name)
    if ra or rb:
        ctx.check('operation-independent-of-history', ra == rb, 'after %s: raises %s, on a fresh mesh %s' % (
            ' ; '.join(hist[-8:]), ra, rb))
        ctx.saw('op raised')
        return None
    V, W = np.array(m2.vertices), np.array(t2.vertices)
    ok = V.shape == W.shape and np.array(m2.faces).shape == np.array(t2.faces).shape
    if not ok or not np.array_equal(np.array(m2.faces), np.array(t2.faces)):
        ctx.check('operation-independent-of-history', False,
                  'after %s: result differs from that on a fresh mesh (shapes %s %s)' % (' ; '.join(hist[-8:]), V.shape, W.shape))
        return None
    ctx.close('operation-independent-of-history', V, W, 1e-12 * geom.size(W), 'after %s' % ' ; '.join(hist[-8:]))
    return m2


def leave(ctx, m, others, hist):
    """Copies the mesh, leaves one of the two behind and returns the other."""
    c = m.copy()
    a, b = (m, c) if ctx.rng.random() < .5 else (c, m)
    others.append((a, np.array(a.vertices), np.array(a.faces)))
    hist.append('leave %s' % ('the original' if a is m else 'the copy'))
    return b


def left_behind(ctx, others, names, hist):
    for k, (a, V, F) in enumerate(others):
        ctx.check('left-behind-unchanged', np.array_equal(V, a.vertices) and np.array_equal(F, a.faces),
                  'mesh %d left behind changed after %s' % (k, ' ; '.join(hist[-8:])))
        order = list(names)
        ctx.rng.shuffle(order)
        compare(ctx, a, order, 'left-behind-coherent', hist + ['asked on mesh %d left behind' % k])
        ctx.saw('mesh left behind')


def run(ctx):
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    V, F, desc = start_mesh(rng, ctx.kind == 'big')
    m = Mesh(V, F)
    others = []                        # meshes left behind: they must not follow what happens to the other ones
    hist = [desc]
    names = sorted(probe.QUERIES)
    if ctx.kind == 'pair':
        # every (cached query, operation) pair: one query (or all), one operation, then everything is compared
        pre = names if ctx.params['pre'] == 'all' else [ctx.params['pre']]
        for n in pre:
            probe.ask(m, n)
        if ctx.idx % 3 == 0:
            m = leave(ctx, m, others, hist)
        m = apply(ctx, m, ctx.params['op'], hist)
        left_behind(ctx, others, names, hist)
        if m is not None:
            order = list(names)
            rng.shuffle(order)
            compare(ctx, m, order, 'coherent', hist)
        ctx.distinct(ctx.params, V, F)
        ctx.sample = {'history': hist, 'queried': pre}
        return
    nops = int(rng.integers(3, 16 if ctx.kind == 'history' else 6))
    opn = sorted(OPS)
    done = 0
    for _ in range(nops):
        p = rng.random()
        if p < .8:
            k = int(rng.choice([1, 2, 4, len(names)], p=[.4, .3, .2, .1]))
            compare(ctx, m, list(rng.choice(names, k, replace=False)), 'coherent', hist)
        if rng.random() < .2 and len(others) < 4:
            m = leave(ctx, m, others, hist)
        m2 = apply(ctx, m, str(rng.choice(opn)), hist)
        if m2 is None:
            break
        done += 1
        if m2 is not m and len(others) < 4:
            others.append((m, np.array(m.vertices), np.array(m.faces)))
        m = m2
        if m.nb_faces > 6000 or not np.isfinite(m.vertices).all():
            break
    else:
        order = list(names)
        rng.shuffle(order)
        compare(ctx, m, order, 'coherent-final', hist)
    left_behind(ctx, others, names, hist)
    if done >= 3:
        ctx.distinct(hist, V)
    ctx.sample = {'history': hist}
