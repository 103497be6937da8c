"""C06: merging duplicate vertices."""
import numpy as np
from mon import gens, geom

PROP = 'C06'
LEVEL = 'exploration'
RULE = ('Vertex clouds with known clusters (exact duplicates, copies jittered well below the tolerance, distinct vertices '
        'separated by more than the tolerance but sharing coordinates), tolerances from 1e-10 to 1, and random clouds at the '
        'scale of the tolerance; unmerged panel meshes of every solid; no duplicates at all, everything a duplicate, one '
        'vertex, none, tens of thousands.  The index map, the kept coordinates and the faces are judged.')
ASSUMPTIONS = ['Which of the nearly coincident vertices are merged is only demanded when, on every axis, the coordinates fall into '
               'groups narrower than half the tolerance and more than 1.5 tolerances apart.']
REQUIRED = ('moved-at-most-atol', 'identical-merged', 'clusters', 'index-map', 'mesh-faces', 'idempotent', 'mesh-geometry')

N = {'quick': 3000, 'thorough': 6000}


def cases(tier, seed):
    out = [('large', i, {'n': n}) for i, n in enumerate([20000] if tier == 'quick' else [20000, 60000, 100000])]
    for k in ('rows', 'random', 'panels', 'mesh'):
        out += [(k, i, {}) for i in range(N[tier] // 4)]
    return out


def clusters(rng, n, atol, dim=3, jitter=True):
    """n rows, their cluster labels."""
    step = atol * float(rng.choice([2.2, 5., 20.]))
    m = max(1, int(rng.integers(1, n + 1)))
    side = max(2, int(np.ceil((2 * m) ** (1. / dim))))
    cells = rng.permutation(side ** dim)[:m]
    cen = np.stack(np.unravel_index(cells, (side,) * dim), axis=1).astype(float)
    scale = step * float(rng.choice([1., 10., 1e3]))
    off = rng.integers(-3, 4, dim) * scale
    if rng.random() < .4:                       # far from the origin: round-off stays well under the tolerance
        off = off + rng.normal(size=dim) * atol * 10. ** float(rng.choice([0., 3., 6., 8., 9.5, 10.8]))
    cen = cen * scale + off
    lab = np.concatenate([np.arange(m), rng.integers(0, m, max(0, n - m))])
    rng.shuffle(lab)
    X = cen[lab]
    if jitter:
        X = X + rng.uniform(-.1, .1, X.shape) * atol * (rng.random((len(lab), 1)) < .7)
    return X, lab


def judge_rows(ctx, X, uniq, new, atol, lab, desc):
    uniq, new = np.asarray(uniq), np.asarray(new)
    ok = ctx.check('index-map', new.shape == (len(X),) and (len(X) == 0 or (new.min() >= 0 and new.max() == len(uniq) - 1)
                                                             and len(set(new.tolist())) == len(uniq)),
                   '%s: the index map is not onto the %d kept rows' % (desc, len(uniq)))
    if not ok or len(X) == 0:
        return
    eps = 1e-12 * (geom.size(X) if len(X) else 1)
    ctx.close('moved-at-most-atol', uniq[new], X, atol + eps, desc + ': a vertex moved')
    key = {}
    bad = 0
    for i, row in enumerate((X + 0.).tolist()):
        if key.setdefault(tuple(row), new[i]) != new[i]:
            bad += 1
    ctx.check('identical-merged', bad == 0, '%s: %d identical vertices are not merged' % (desc, bad))
    if lab is not None:
        pairs = set(zip(lab.tolist(), new.tolist()))
        n = len(set(lab.tolist()))
        ctx.check('clusters', len(pairs) == n and len(uniq) == n,
                  '%s: %d clusters give %d vertices, %d cluster/vertex pairs' % (desc, n, len(uniq), len(pairs)))


def run(ctx):
    from meshmagick.mesh import Mesh
    from meshmagick.tools import merge_duplicate_rows
    rng = ctx.rng
    k = ctx.kind
    if k in ('rows', 'large', 'random'):
        atol = 10. ** rng.uniform(-10, 0)
        dim = int(rng.choice([1, 2, 3, 3, 3, 4]))
        n = ctx.params.get('n') or int(rng.choice([1, 2, 3, 10, 100, 600]))
        if k == 'random':
            X, lab = rng.integers(-4, 5, (n, dim)) * atol * float(rng.choice([.3, .7, 1.3])) + \
                rng.normal(size=(n, dim)) * atol * float(rng.choice([0., .1, 1.])), None
        else:
            X, lab = clusters(rng, n, atol, dim)
        X0 = X.copy()
        if rng.random() < .2:
            uniq, new = merge_duplicate_rows(X.tolist(), atol=atol, return_index=True)
        else:
            uniq, new = merge_duplicate_rows(X, atol=atol, return_index=True)
        if lab is None:
            lab = partition(X, atol)
        ctx.saw('partition known' if lab is not None else 'partition free')
        judge_rows(ctx, X, uniq, new, atol, lab, '%s n=%d dim=%d atol=%g' % (k, n, dim, atol))
        ctx.check('argument-kept', np.array_equal(X, X0), 'the array given was changed')
        only = merge_duplicate_rows(X, atol=atol)
        ctx.check('index-map', np.array_equal(only, uniq), 'the result depends on return_index')
        if lab is not None:
            u2, n2 = merge_duplicate_rows(uniq, atol=atol, return_index=True)
            ctx.check('idempotent', len(u2) == len(uniq), 'merging again merges more')
        if ctx.idx % 7 == 0:
            u, nw = merge_duplicate_rows(np.zeros((0, 3)), return_index=True)
            ctx.check('index-map', len(u) == 0 and len(nw) == 0, 'no row at all')
        ctx.distinct(X)
        ctx.sample = {'n': n, 'dim': dim, 'atol': atol, 'kept': len(uniq)}
        ctx.saw('merged' if len(uniq) < len(X) else 'nothing to merge')
        return
    # meshes
    V, F, desc = gens.solid(rng, kind=str(rng.choice(['none', 'rigid', 'aniso'])))
    atol = float(rng.choice([1e-8, 1e-8, 1e-6, 1e-4]))
    lab = None
    if rng.random() < .3:
        V = V + rng.normal(size=3) * 10. ** rng.uniform(0, 4)
        desc += ' far'
    if k == 'panels':
        base = [tuple(v) for v in V]
        W, G = gens.panels(V, F)
        ids = {p: i for i, p in enumerate(base)}
        lab = np.array([ids[tuple(p)] for p in W])
        if rng.random() < .5:
            W = W + rng.uniform(-.02, .02, W.shape) * atol
            # the clusters of a general solid may share nearly equal coordinates: only the map itself is demanded then
        V, F = W, G
    else:
        n = len(V)
        dup = rng.integers(0, n, int(rng.integers(0, n + 1)))
        V = np.concatenate([V, V[dup]])
        lab = np.concatenate([np.arange(n), dup])
        F = F.copy()
        for r in range(len(F)):                      # refer to copies at random, keeping triangles [a,b,c,a]
            c = geom.cycles(F[r:r + 1])[0]
            c = [int(rng.choice(np.where(lab == i)[0])) for i in c]
            F[r] = c + [c[0]] if len(c) == 3 else c
    exact = k == 'mesh'
    m = Mesh(V, F)
    if rng.random() < .4:
        rng.choice([lambda: m.faces_normals, lambda: m.triangles_ids, lambda: m.volume])()
    m.verbose = bool(rng.random() < .2)
    ret = m.merge_duplicates(atol=atol, return_index=True)
    W, G = np.array(m.vertices), np.array(m.faces)
    judge_rows(ctx, V, W, ret, atol, partition(V, atol), desc)
    ctx.check('mesh-faces', G.shape == F.shape and np.array_equal(G, np.asarray(ret)[F]), desc + ': faces are not renumbered')
    ctx.close('mesh-geometry', W[G], V[F], atol + 1e-12 * geom.size(V), desc + ': a face moved')
    if exact:
        r2 = m.merge_duplicates(atol=atol, return_index=True)
        ctx.check('idempotent', np.array_equal(r2, np.arange(len(W))) and np.array_equal(W, m.vertices), 'merging twice')
        ctx.check('idempotent', m.merge_duplicates() is None, 'return value without return_index')
    ctx.distinct(V, F)
    ctx.sample = {'mesh': desc, 'nv': len(V), 'kept': len(W)}


def partition(X, atol):
    """The clusters the tolerance implies without ambiguity (labels), or None.

    On every axis the values must form groups spanning less than half a tolerance, more than 1.5 tolerance apart."""
    ids = np.zeros((len(X), X.shape[1]), int)
    for d in range(X.shape[1]):
        o = np.argsort(X[:, d], kind='stable')
        v = X[o, d]
        gap = np.diff(v)
        new = gap > 1.5 * atol
        if np.any((gap > .5 * atol) & ~new):
            return None
        g = np.concatenate([[0], np.cumsum(new)])
        start = v[np.concatenate([[True], new])]
        if np.any(v - start[g] > .5 * atol):
            return None
        ids[o, d] = g
    return np.unique(ids, axis=0, return_inverse=True)[1].ravel()
