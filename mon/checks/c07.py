"""C07: healing procedures repair the description of a surface and keep the surface."""
import numpy as np
from mon import gens, geom

PROP = 'C07'
LEVEL = 'exploration'
RULE = ('Clean solids (the reference surface) are dirtied in known ways: unused vertices, badly written triangles, faces that '
        'own their vertices with jitter below the tolerance, quads collapsed into triangles, slivers, reversed faces, small bodies far away, in '
        'random combinations and histories; each healing step and heal_mesh must give back exactly the reference faces.')
ASSUMPTIONS = ['Slivers are generated well below, and true faces well above, the area threshold of the degenerate face test.']
REQUIRED = ('unused-removed', 'unused-geometry', 'triangles-written', 'triangles-geometry', 'degenerate-removed',
            'heal_mesh-surface', 'heal_mesh-closed', 'heal_mesh-idempotent', 'heal_mesh-no-unused')

N = {'quick': 700, 'thorough': 1500}


def cases(tier, seed):
    out = [('large', i, {'n': 40}) for i in range(1 if tier == 'quick' else 5)]
    for k in ('unused', 'triangles', 'degenerate', 'heal'):
        out += [(k, i, {}) for i in range(N[tier])]
    return out


def dirty_triangles(F, rng, p=.6):
    F = F.copy()
    n = 0
    for i in np.where(geom.is_tri(F))[0]:
        if rng.random() < p:
            a, b, c = F[i, :3]
            F[i] = [(a, b, c, c), (a, a, b, c), (a, b, b, c), (a, b, c, a)][rng.integers(4)]
            n += 1
    return F


def poly(f):
    """The oriented cycle a face denotes, whatever its description."""
    out = []
    for i in f:
        if not out or out[-1] != i:
            out.append(int(i))
    if len(out) > 1 and out[0] == out[-1]:
        out.pop()
    return geom.canon(tuple(out))


def add_unused(V, F, rng):
    k = int(rng.integers(1, 12))
    X = rng.normal(size=(k, 3)) * geom.size(V)
    if rng.random() < .3:
        X[0] = V[0]
    W = np.concatenate([V, X])
    p = rng.permutation(len(W))
    inv = np.empty(len(W), int)
    inv[p] = np.arange(len(W))
    return W[p], inv[F], k


def run(ctx):
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    if ctx.kind == 'large':
        V, F = gens.sphere(ctx.params['n'], ctx.params['n'] + 20)
        V, F = gens.split_some(V, F, rng, .5)
        desc = 'large'
    else:
        V, F, desc = gens.solid(rng, kind=str(rng.choice(['none', 'rigid', 'aniso', 'far'])))
    ctx.sample = {'mesh': desc, 'nv': len(V), 'nf': len(F)}
    kind = ctx.kind if ctx.kind != 'large' else 'heal'
    if kind == 'unused':
        n0 = len(V)
        if rng.random() < .4:
            V, F = gens.open_part(V, F, rng)
        G = dirty_triangles(F, rng)
        V, G, k = add_unused(V, G, rng) if rng.random() < .8 else (V, G, 0)
        m = Mesh(V, G)
        m.verbose = bool(rng.random() < .2)
        query(m, rng)
        m.remove_unused_vertices()
        W, H = np.array(m.vertices), np.array(m.faces)
        used = len(np.unique(G))
        ctx.check('unused-removed', len(W) == used and set(np.unique(H).tolist()) == set(range(used)),
                  '%s: %d vertices left, %d are used' % (desc, len(W), used))
        ctx.check('unused-geometry', H.shape == G.shape and np.array_equal(W[H], V[G]), desc + ': a face changed')
        W1 = W.copy()
        m.remove_unused_vertices()
        ctx.check('unused-removed', np.array_equal(m.vertices, W1) and np.array_equal(m.faces, H), desc + ': second call')
        ctx.distinct(V, G)
    elif kind == 'triangles':
        G = dirty_triangles(F, rng)
        m = Mesh(V, G)
        m.verbose = bool(rng.random() < .2)
        query(m, rng)
        m.heal_triangles()
        H = np.array(m.faces)
        ctx.check('triangles-geometry', H.shape == G.shape and all(poly(a) == poly(b) for a, b in zip(H, G)),
                  desc + ': a face changed')
        ctx.check('triangles-written', all((f[0] == f[3]) == (len(poly(f)) == 3) for f in H) and
                  all(len(set(f[:3].tolist())) == 3 for f in H), desc + ': a triangle is not [a,b,c,a]')
        ctx.check('triangles-written', m.nb_triangles == int(geom.is_tri(F).sum()), desc + ': number of triangles')
        ctx.check('unused-geometry', np.array_equal(m.vertices, V), 'vertices changed')
        ctx.distinct(V, G)
    elif kind == 'degenerate':
        A = geom.face_areas(V, F)
        if rng.random() < .5:
            V, F, n = slivers(V, F, rng)
            rtol = 10. ** rng.uniform(-6, -4)
        else:
            rtol = float(rng.choice([.1, .5, .99, 1.2, rng.uniform(.2, 1.1)]))
        m = Mesh(V, F)
        m.verbose = bool(rng.random() < .2)
        query(m, rng)
        A = geom.face_areas(V, F)
        thr = rtol * A.mean()
        keep = A >= thr
        if np.any(np.abs(A - thr) < 1e-9 * A.max()):
            ctx.saw('ambiguous')
            return
        m.remove_degenerated_faces(rtol)
        ctx.check('degenerate-removed', np.array_equal(m.faces, F[keep]) and np.array_equal(m.vertices, V),
                  '%s: rtol %g keeps %d faces, expected %d' % (desc, rtol, m.nb_faces, keep.sum()))
        ctx.saw('removed some' if not keep.all() else 'removed none')
        ctx.distinct(V, F, rtol)
    else:
        what = []
        if rng.random() < .25:                        # a small body far away
            from scipy.spatial import cKDTree
            V = V - V.mean(axis=0)
            gap = cKDTree(V).query(V, k=2)[0][:, 1].min()
            if gap > 1e-4 * geom.size(V):
                V = V / gap * 10 ** rng.uniform(-4, 0) + rng.normal(size=3) * 10 ** rng.uniform(0, 5)
                what.append('far away')
        W, G = V, F
        if rng.random() < .6:
            W, G = gens.panels(W, G)
            W = W + rng.uniform(-1e-10, 1e-10, W.shape) * (rng.random() < .5)
            what.append('panels')
            if rng.random() < .5:                     # triangles as quads with two coincident, distinct vertices
                W, G = list(W), G.copy()
                for i in np.where(geom.is_tri(G))[0]:
                    if rng.random() < .5:
                        k = int(rng.integers(3))
                        c = list(G[i, :3])
                        W.append(W[c[k]])
                        c.insert(k + int(rng.integers(2)), len(W) - 1)
                        G[i] = c
                W = np.array(W)
                what.append('collapsed')
        else:
            G = dirty_triangles(G, rng)
            what.append('triangles')
        if rng.random() < .6:
            fl = rng.random(len(G)) < rng.uniform(0, .6)
            G = G.copy()
            G[fl] = G[fl][:, ::-1]
            what.append('reversed')
        if rng.random() < .5:
            W, G, k = slivers(W, G, rng)
            what.append('slivers')
        if rng.random() < .6:
            W, G, k = add_unused(W, G, rng)
            what.append('unused')
        desc = desc + ' ' + '+'.join(what)
        ctx.saw(*what)
        m = Mesh(W, G)
        m.verbose = bool(rng.random() < .2)
        if 'collapsed' not in what:
            query(m, rng)
        m.heal_mesh()
        X, H = np.array(m.vertices), np.array(m.faces)
        tol = 1e-8 + 1e-12 * geom.size(V)
        u1, u2, rev = geom.match_faces(V, F, X, H, tol)
        ctx.check('heal_mesh-surface', not u1 and not u2 and not rev,
                  '%s: %d faces lost, %d faces added, %d faces inward' % (desc, len(u1), len(u2), len(rev)))
        ctx.check('heal_mesh-closed', m.is_mesh_closed() and m.nb_boundaries == 0, desc + ': not closed')
        ctx.check('heal_mesh-no-unused', len(np.unique(H)) == len(X) == len(V), '%s: %d vertices, %d used, expected %d' % (
            desc, len(X), len(np.unique(H)), len(V)))
        m.heal_mesh()
        u1, u2, rev = geom.match_faces(X, H, m.vertices, m.faces, 1e-12 * geom.size(V))
        ctx.check('heal_mesh-idempotent', m.nb_vertices == len(X) and not u1 and not u2 and not rev, desc + ': healing again')
        ctx.distinct(W, G)
    ctx.sample = {'mesh': desc, 'nv': len(V), 'nf': len(F)}


def query(m, rng):
    if rng.random() < .5:
        rng.choice([lambda: m.faces_normals, lambda: m.triangles_ids, lambda: m.volume, lambda: m.faces_areas])()


def slivers(V, F, rng):
    """Adds faces of almost no area next to the surface, with vertices of their own."""
    k = int(rng.integers(1, 6))
    s = geom.extent(V)
    A = geom.face_areas(V, F).mean()
    W, G = [], []
    for _ in range(k):
        o = V[rng.integers(len(V))] + rng.normal(size=3) * .3 * s
        d = rng.normal(size=3)
        d /= np.linalg.norm(d)
        L = min(s, 1.) * .1
        e = np.cross(d, rng.normal(size=3))
        e /= np.linalg.norm(e)
        h = 1e-8 * A / L
        b = len(V) + len(W)
        if rng.random() < .5:
            W += [o, o + L * d, o + .5 * L * d + h * e]
            G.append([b, b + 1, b + 2, b])
        else:
            W += [o, o + L * d, o + L * d + h * e, o + h * e]
            G.append([b, b + 1, b + 2, b + 3])
    V2, F2 = np.concatenate([V, W]), np.concatenate([F, G])
    return V2, F2[rng.permutation(len(F2))], k
