"""Workload generators: meshes with known structure, hostile variants of them, and histories of operations."""
import numpy as np
from . import geom


# --- closed, outward oriented surfaces with planar faces -----------------------------------------------------------
def grid_box(nx=1, ny=1, nz=1, lo=(-1, -1, -1), hi=(1, 1, 1)):
    xs, ys, zs = (np.linspace(lo[k], hi[k], n + 1) for k, n in enumerate((nx, ny, nz)))
    ids, V, F = {}, [], []

    def vid(i, j, k):
        if (i, j, k) not in ids:
            ids[(i, j, k)] = len(V)
            V.append((xs[i], ys[j], zs[k]))
        return ids[(i, j, k)]
    for i in range(nx):
        for j in range(ny):
            F.append([vid(i, j, 0), vid(i, j + 1, 0), vid(i + 1, j + 1, 0), vid(i + 1, j, 0)])
            F.append([vid(i, j, nz), vid(i + 1, j, nz), vid(i + 1, j + 1, nz), vid(i, j + 1, nz)])
    for i in range(nx):
        for k in range(nz):
            F.append([vid(i, 0, k), vid(i + 1, 0, k), vid(i + 1, 0, k + 1), vid(i, 0, k + 1)])
            F.append([vid(i, ny, k), vid(i, ny, k + 1), vid(i + 1, ny, k + 1), vid(i + 1, ny, k)])
    for j in range(ny):
        for k in range(nz):
            F.append([vid(0, j, k), vid(0, j, k + 1), vid(0, j + 1, k + 1), vid(0, j + 1, k)])
            F.append([vid(nx, j, k), vid(nx, j + 1, k), vid(nx, j + 1, k + 1), vid(nx, j, k + 1)])
    return np.array(V, float), np.array(F, int)


def revolution(profile, n, closed=False):
    """Surface of revolution about z.  profile: list of (r, z), r>=0, from bottom to top (open profile, ends on the axis
    or closed with caps) or a closed loop (torus).  Planar quads and triangles at the poles."""
    V, F, rings = [], [], []
    for r, z in profile:
        if r == 0:
            rings.append([len(V)] * n)
            V.append((0., 0., z))
        else:
            rings.append(list(range(len(V), len(V) + n)))
            for k in range(n):
                V.append((r * np.cos(2 * np.pi * k / n), r * np.sin(2 * np.pi * k / n), z))
    m = len(profile)
    for i in range(m if closed else m - 1):
        a, b = rings[i], rings[(i + 1) % m]
        for k in range(n):
            q = [a[k], a[(k + 1) % n], b[(k + 1) % n], b[k]]
            if q[0] == q[1]:
                F.append([q[0], q[2], q[3], q[0]])
            elif q[2] == q[3]:
                F.append([q[0], q[1], q[2], q[0]])
            else:
                F.append(q)
    return np.array(V, float), np.array(F, int)


def sphere(nlat=6, nlon=8, r=1.):
    th = np.linspace(-np.pi / 2, np.pi / 2, nlat + 1)
    prof = [(0. if i in (0, nlat) else r * np.cos(t), r * np.sin(t)) for i, t in enumerate(th)]
    return revolution(prof, nlon)


def cylinder(n=12, r=1., h=2., nz=2, nr=2):
    prof = [(0., -h / 2)] + [(r * (k + 1) / nr, -h / 2) for k in range(nr)] \
        + [(r, -h / 2 + h * (k + 1) / nz) for k in range(nz)] \
        + [(r * (nr - 1 - k) / nr, h / 2) for k in range(nr - 1)] + [(0., h / 2)]
    return revolution(prof, n)


def cone(n=10, r=1., h=2.):
    return revolution([(0., 0.), (r, 0.), (0., h)], n)


def torus(nmaj=10, nmin=8, R=2., r=.7):
    prof = [(R + r * np.cos(2 * np.pi * k / nmin), r * np.sin(2 * np.pi * k / nmin)) for k in range(nmin)]
    return revolution(prof, nmaj, closed=True)


def tetra():
    V = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], float)
    F = np.array([[0, 2, 1, 0], [0, 1, 3, 0], [0, 3, 2, 0], [1, 2, 3, 1]])
    return V, F


def wedge():
    """Triangular prism: 2 triangles and 3 quads."""
    V = np.array([[0, 0, 0], [2, 0, 0], [0, 1, 0], [0, 0, 3], [2, 0, 3], [0, 1, 3]], float)
    F = np.array([[0, 2, 1, 0], [3, 4, 5, 3], [0, 1, 4, 3], [1, 2, 5, 4], [2, 0, 3, 5]])
    return V, F


def icosphere(level=1, r=1.):
    t = (1 + 5 ** .5) / 2
    V = [(-1, t, 0), (1, t, 0), (-1, -t, 0), (1, -t, 0), (0, -1, t), (0, 1, t), (0, -1, -t), (0, 1, -t),
         (t, 0, -1), (t, 0, 1), (-t, 0, -1), (-t, 0, 1)]
    F = [(0, 11, 5), (0, 5, 1), (0, 1, 7), (0, 7, 10), (0, 10, 11), (1, 5, 9), (5, 11, 4), (11, 10, 2), (10, 7, 6),
         (7, 1, 8), (3, 9, 4), (3, 4, 2), (3, 2, 6), (3, 6, 8), (3, 8, 9), (4, 9, 5), (2, 4, 11), (6, 2, 10),
         (8, 6, 7), (9, 8, 1)]
    V = [np.array(v, float) / np.linalg.norm(v) for v in V]
    for _ in range(level):
        mid, G = {}, []

        def m(a, b):
            k = (min(a, b), max(a, b))
            if k not in mid:
                p = V[a] + V[b]
                mid[k] = len(V)
                V.append(p / np.linalg.norm(p))
            return mid[k]
        for a, b, c in F:
            x, y, z = m(a, b), m(b, c), m(c, a)
            G += [(a, x, z), (b, y, x), (c, z, y), (x, y, z)]
        F = G
    F = np.array(F)
    return r * np.array(V), np.column_stack([F, F[:, 0]])


def hull(rng, n=14):
    """Random convex polyhedron, triangles, outward."""
    from scipy.spatial import ConvexHull
    P = rng.normal(size=(n, 3))
    P /= np.linalg.norm(P, axis=1)[:, None]
    P *= rng.uniform(.8, 1.2, size=(n, 1))
    H = ConvexHull(P)
    used = np.unique(H.simplices)
    new = -np.ones(n, int)
    new[used] = np.arange(len(used))
    V, F = P[used], new[H.simplices]
    c = V.mean(axis=0)
    a = np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]])
    flip = np.einsum('ij,ij->i', a, V[F].mean(axis=1) - c) < 0
    F[flip] = F[flip][:, ::-1]
    return V, np.column_stack([F, F[:, 0]])


def extrusion(poly, quads, z0, z1, nz=1):
    """Extrusion of a planar polygon (CCW points, quad cells tiling it) along z."""
    n = len(poly)
    zs = np.linspace(z0, z1, nz + 1)
    V = [(x, y, z) for z in zs for x, y in poly]
    F = []
    for q in quads['cells']:
        F.append([q[0], q[3], q[2], q[1]])
        F.append([i + nz * n for i in q])
    for k in range(nz):
        for a, b in quads['edges']:
            F.append([a + k * n, b + k * n, b + (k + 1) * n, a + (k + 1) * n])
    return np.array(V, float), np.array(F, int)


def lshape(nz=1):
    """Non convex L-shaped prism, conformal."""
    poly = [(0, 0), (1, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2), (0, 1)]
    return extrusion(poly, {'cells': [[0, 1, 4, 7], [1, 2, 3, 4], [7, 4, 5, 6]],
                            'edges': [(i, (i + 1) % 8) for i in range(8)]}, -1., 1., nz)


def ushape(nz=2):
    """Non convex U (two towers when cut across)."""
    poly = [(0, 0), (1, 0), (2, 0), (3, 0), (3, 1), (3, 2), (2, 2), (2, 1), (1, 1), (1, 2), (0, 2), (0, 1)]
    return extrusion(poly, {'cells': [[0, 1, 8, 11], [1, 2, 7, 8], [2, 3, 4, 7], [11, 8, 9, 10], [7, 4, 5, 6]],
                            'edges': [(i, (i + 1) % 12) for i in range(12)]}, -1., 1., nz)


def barge(nx=4, ny=3, nz=3, L=10., B=4., H=3., d=1.5):
    return grid_box(nx, ny, nz, (-L / 2, -B / 2, -d), (L / 2, B / 2, H - d))


def wigley(nx=12, nz=5, L=10., B=2., T=1., D=.6):
    """Triangulated Wigley-like ship hull with vertical sides above z=0, closed by a deck: closed, outward."""
    xs = np.linspace(-L / 2, L / 2, nx + 1)
    zs = np.concatenate([np.linspace(-T, 0, nz + 1), [D]])

    def half(x, z):
        return max(B / 2 * (1 - (2 * x / L) ** 2) * (1 - (min(z, 0) / T) ** 2), 0.)
    soup = []
    for i in range(nx):
        for k in range(len(zs) - 1):
            p = [(xs[i], zs[k]), (xs[i + 1], zs[k]), (xs[i + 1], zs[k + 1]), (xs[i], zs[k + 1])]
            for s in (1, -1):
                q = [(x, s * half(x, z), z) for x, z in p]
                for t in (((0, 1, 2), (0, 2, 3)) if i < nx / 2 else ((0, 1, 3), (1, 2, 3))):
                    tri = [q[t[0]], q[t[1]], q[t[2]]]
                    soup.append(tri[::-1] if s > 0 else tri)
        z = zs[-1]
        a, b = half(xs[i], z), half(xs[i + 1], z)
        q = [(xs[i], -a, z), (xs[i + 1], -b, z), (xs[i + 1], b, z), (xs[i], a, z)]
        soup.append([q[0], q[1], q[2]])
        soup.append([q[0], q[2], q[3]])
    ids, V, F = {}, [], []
    for t in soup:
        f = []
        for p in t:
            key = tuple(round(c, 9) + 0. for c in p)
            if key not in ids:
                ids[key] = len(V)
                V.append(p)
            f.append(ids[key])
        if len(set(f)) == 3:
            F.append(f + [f[0]])
    return np.array(V, float), np.array(F, int)


BASE = {
    'tetra': lambda rng: tetra(),
    'wedge': lambda rng: wedge(),
    'box1': lambda rng: grid_box(),
    'box': lambda rng: grid_box(int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(1, 5))),
    'sphere': lambda rng: sphere(int(rng.integers(3, 9)), int(rng.integers(3, 13))),
    'cylinder': lambda rng: cylinder(int(rng.integers(3, 16)), 1., 2., int(rng.integers(1, 5)), int(rng.integers(1, 4))),
    'cone': lambda rng: cone(int(rng.integers(3, 12))),
    'torus': lambda rng: torus(int(rng.integers(4, 12)), int(rng.integers(3, 9))),
    'ico': lambda rng: icosphere(int(rng.integers(0, 3))),
    'hull': lambda rng: hull(rng, int(rng.integers(6, 30))),
    'lshape': lambda rng: lshape(int(rng.integers(1, 4))),
    'ushape': lambda rng: ushape(int(rng.integers(1, 4))),
    'wigley': lambda rng: wigley(int(rng.integers(4, 10)), int(rng.integers(2, 5))),
}
NAMES = sorted(BASE)
CONVEX = ['tetra', 'wedge', 'box1', 'box', 'sphere', 'cylinder', 'cone', 'ico', 'hull']


# --- variations that keep the surface -------------------------------------------------------------------------------
def split_some(V, F, rng, p=.5):
    """Splits a random part of the quads into triangles."""
    out = []
    for f in F:
        if f[0] != f[3] and rng.random() < p:
            a, b, c, d = f
            if rng.random() < .5:
                out += [[a, b, c, a], [a, c, d, a]]
            else:
                out += [[b, c, d, b], [b, d, a, b]]
        else:
            out.append(list(f))
    return V, np.array(out, int)


def shuffle(V, F, rng, faces=True, verts=True, roll=True):
    V, F = V.copy(), F.copy()
    if verts:
        p = rng.permutation(len(V))
        inv = np.empty(len(V), int)
        inv[p] = np.arange(len(V))
        V, F = V[p], inv[F]
    if faces:
        F = F[rng.permutation(len(F))]
    if roll:
        for k in range(len(F)):
            if F[k, 0] == F[k, 3]:
                r = np.roll(F[k, :3], rng.integers(3))
                F[k] = [r[0], r[1], r[2], r[0]]
            else:
                F[k] = np.roll(F[k], rng.integers(4))
    return V, F


def panels(V, F):
    """Every face owns its vertices (as panel formats store them)."""
    out, G = [], []
    for c in geom.cycles(F):
        b = len(out)
        out += [V[i] for i in c]
        G.append([b, b + 1, b + 2, b if len(c) == 3 else b + 3])
    return np.array(out, float), np.array(G, int)


def affine(V, F, rng, kind=None):
    """Random proper affine map keeping orientation; planar faces stay planar."""
    kind = kind or rng.choice(['none', 'rigid', 'aniso', 'shear', 'big', 'small', 'far'])
    A, b = np.eye(3), np.zeros(3)
    if kind in ('rigid', 'aniso', 'shear', 'big', 'small', 'far'):
        ax = rng.normal(size=3)
        A = geom.rot_axis_angle(ax, rng.uniform(0, np.pi))
        b = rng.uniform(-3, 3, 3)
    if kind == 'aniso':
        A = A @ np.diag(rng.uniform(.3, 3, 3))
    if kind == 'shear':
        A = A @ (np.eye(3) + np.triu(rng.uniform(-.5, .5, (3, 3)), 1))
    if kind == 'big':
        A = A * 10 ** rng.uniform(2, 4)
        b = b * 1e3
    if kind == 'small':
        A = A * 10 ** rng.uniform(-2, -1)
        b = b * 1e-2
    if kind == 'far':
        b = b * 100
    return V @ A.T + b, F, str(kind)


def solid(rng, name=None, kind=None, mix=None, shuf=True):
    """A random closed outward mesh with planar faces.  Returns V, F, description."""
    name = name or str(rng.choice(NAMES))
    V, F = BASE[name](rng)
    mix = mix if mix is not None else str(rng.choice(['keep', 'some', 'tri']))
    if mix == 'some':
        V, F = split_some(V, F, rng, .5)
    elif mix == 'tri':
        V, F = split_some(V, F, rng, 1.)
    V, F, kind = affine(V, F, rng, kind)
    if shuf:
        V, F = shuffle(V, F, rng)
    return V, F, '%s/%s/%s' % (name, mix, kind)


def any_unit(V, rng, p=.25):
    """The same shape in another unit of length."""
    return V * 10. ** rng.uniform(-9, 6) if rng.random() < p else V


def open_part(V, F, rng, frac=None):
    """A random subset of the faces (all vertices kept)."""
    frac = frac if frac is not None else rng.uniform(.2, .95)
    k = max(1, int(len(F) * frac))
    return V, F[np.sort(rng.choice(len(F), k, replace=False))]


def midpoints(V, F, rng, p=.5):
    """Cuts edges between two triangles in two: the triangles become quads having two edges in common."""
    W, G, used = [list(v) for v in V], [list(f) for f in F], set()
    for (a, b), fs in geom.undirected_edges(F).items():
        if len(fs) != 2 or used & set(fs) or any(F[k][0] != F[k][3] for k in fs) or rng.random() > p:
            continue
        used |= set(fs)
        for k in fs:
            c = [int(i) for i in F[k][:3]]
            i = next(i for i in range(3) if {c[i - 1], c[i]} == {a, b})
            c.insert(i, len(W)) if i else c.append(len(W))
            G[k] = c
        W.append(list((V[a] + V[b]) / 2))
    return np.array(W, float), np.array(G, int)


def fins(V, F, rng, p=.3):
    """Adds two-sided triangles (two opposite faces) standing on diagonals of quads: no edge in common with the quad."""
    W, G = [list(v) for v in V], [list(f) for f in F]
    und = geom.undirected_edges(F)
    seen = set()
    for c in geom.cycles(F):
        if len(c) == 4 and rng.random() < p:
            i = int(rng.integers(2))
            a, b = c[i], c[i + 2]
            e = (min(a, b), max(a, b))
            if e in und or e in seen:
                continue
            seen.add(e)
            W.append(list(V[list(c)].mean(axis=0) + rng.normal(size=3) * np.linalg.norm(V[a] - V[b])))
            q = len(W) - 1
            G += [[a, b, q, a], [b, a, q, b]]
    return np.array(W, float), np.array(G, int)


def pillow(rng):
    """A warped quad closed by two triangles: the quad has three vertices in common with each triangle."""
    V = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]], float) + rng.normal(size=(4, 3)) * .2
    V[[1, 3], 2] += .5
    i = int(rng.integers(2))
    T = [[0, 2, 1, 0], [0, 3, 2, 0]] if i else [[1, 3, 2, 1], [1, 0, 3, 1]]
    return V, np.array([[0, 1, 2, 3]] + T, int)


def odd(V, F, rng):
    """Faces that have more than one edge, or vertices that are no edge of theirs, in common."""
    k = int(rng.integers(4))
    if k in (0, 3):
        V, F = midpoints(V, F, rng)
    if k in (1, 3):
        V, F = fins(V, F, rng)
    if k == 2:
        V, F = pillow(rng)
    return shuffle(V, F, rng)


def union(*parts):
    Vs, Fs, n = [], [], 0
    for V, F in parts:
        Vs.append(V)
        Fs.append(F + n)
        n += len(V)
    return np.concatenate(Vs), np.concatenate(Fs)


def platform(rng, L=30.):
    """Several floaters of different sizes, disposed anywhere, in any order."""
    n = int(rng.integers(2, 6))
    cells = [(i, j) for i in range(3) for j in range(3)]
    H = L * rng.uniform(.1, .3)
    parts = []
    for k in rng.permutation(9)[:n]:
        i, j = cells[k]
        b = rng.uniform(.35, .9, 2) * L / 3
        if rng.random() < .6:
            V, F = barge(int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 3)), b[0], b[1], H * rng.uniform(.8, 1.2), H / 2)
        else:
            V, F = cylinder(int(rng.integers(5, 12)), b.min() / 2, H * rng.uniform(.8, 1.2))
        c = V.mean(axis=0)
        V = V - [c[0], c[1], (V[:, 2].max() + V[:, 2].min()) / 2] + [L / 3 * (i + rng.uniform(-.04, .04)), L / 3 * (j + rng.uniform(-.04, .04)), 0]
        parts.append((V, F))
    V, F = union(*parts)
    return V - np.append(V[:, :2].mean(axis=0), 0), F, 'platform of %d' % n


def soup(rng, nf, tri=.5, spread=10.):
    """Random faces, planar quads, not connected (vertices shared or not at random)."""
    V, F = [], []
    for _ in range(nf):
        o = rng.uniform(-spread, spread, 3)
        R = geom.rot_axis_angle(rng.normal(size=3), rng.uniform(0, 3))
        if rng.random() < tri:
            P = rng.normal(size=(3, 2))
            f = [0, 1, 2, 0]
        else:
            ang = np.sort(rng.uniform(0, 2 * np.pi, 4)) * .2 + np.arange(4) * np.pi / 2
            P = np.column_stack([np.cos(ang), np.sin(ang)]) * rng.uniform(.5, 1.5)
            f = [0, 1, 2, 3]
        b = len(V)
        V += list(np.column_stack([P, np.zeros(len(P))]) @ R.T + o)
        F.append([b + i for i in f])
    return np.array(V, float).reshape(-1, 3), np.array(F, int)


def distinct_rows(X, gap):
    """The number of different rows, and whether they are all further than gap from each other."""
    from scipy.spatial import cKDTree
    U = np.unique(np.asarray(X, float) + 0., axis=0)
    return len(U), not cKDTree(U).query_pairs(gap, p=np.inf)
