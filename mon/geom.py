"""Independent reference geometry (numpy only, nothing of meshmagick): the executable model the monitors judge against.

A surface is (V, F): V (nv,3) float, F (nf,4) int, triangles written [a,b,c,a]."""
import numpy as np


def is_tri(F):
    F = np.asarray(F)
    return F[:, 0] == F[:, 3]


def tris(V, F):
    """(nt,3,3) corners, (nt,) owning face: quads are split along the 0-2 diagonal."""
    V = np.asarray(V, float)
    F = np.asarray(F, int).reshape(-1, 4)
    t = is_tri(F)
    q = ~t
    idx = np.concatenate([F[t][:, [0, 1, 2]], F[q][:, [0, 1, 2]], F[q][:, [0, 2, 3]]])
    own = np.concatenate([np.where(t)[0], np.where(q)[0], np.where(q)[0]])
    return V[idx], own


def tri_vec_area(T):
    return 0.5 * np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0])


def face_area_vec(V, F):
    T, own = tris(V, F)
    out = np.zeros((len(F), 3))
    np.add.at(out, own, tri_vec_area(T))
    return out


def face_areas(V, F):
    T, own = tris(V, F)
    out = np.zeros(len(F))
    np.add.at(out, own, np.linalg.norm(tri_vec_area(T), axis=1))
    return out


def face_normals(V, F):
    a = face_area_vec(V, F)
    with np.errstate(invalid='ignore', divide='ignore'):
        return a / np.linalg.norm(a, axis=1)[:, None]


def face_centers(V, F):
    T, own = tris(V, F)
    A = np.linalg.norm(tri_vec_area(T), axis=1)
    out = np.zeros((len(F), 3))
    np.add.at(out, own, A[:, None] * T.mean(axis=1))
    s = np.zeros(len(F))
    np.add.at(s, own, A)
    with np.errstate(invalid='ignore', divide='ignore'):
        return out / s[:, None]


def planarity(V, F):
    """Largest out-of-plane deviation of the quads, relative to the face size."""
    F = np.asarray(F)
    q = F[~is_tri(F)]
    if len(q) == 0:
        return 0.
    P = np.asarray(V)[q]
    n = np.cross(P[:, 2] - P[:, 0], P[:, 3] - P[:, 1])
    s = np.sqrt(np.linalg.norm(n, axis=1)) + 1e-300
    n = n / (np.linalg.norm(n, axis=1)[:, None] + 1e-300)
    return float(np.max(np.abs(np.einsum('ij,ij->i', P[:, 1] - P[:, 0], n)) / s))


def surface_moments(V, F):
    """area, first moments (3,), second moment matrix (3,3) of the surface about the origin."""
    T, _ = tris(V, F)
    a = np.linalg.norm(tri_vec_area(T), axis=1)
    S = T.sum(axis=1)
    m1 = (a[:, None] * S / 3.).sum(axis=0)
    m2 = np.einsum('n,nai,naj->ij', a / 12., T, T) + np.einsum('n,ni,nj->ij', a / 12., S, S)
    return a.sum(), m1, m2


def volume_moments(V, F):
    """volume, first moments, second moment matrix about the origin of the region enclosed (sum of signed tetrahedra)."""
    T, _ = tris(V, F)
    d = np.einsum('ni,ni->n', T[:, 0], np.cross(T[:, 1], T[:, 2])) / 6.
    S = T.sum(axis=1)
    m1 = (d[:, None] * S / 4.).sum(axis=0)
    m2 = np.einsum('n,nai,naj->ij', d / 20., T, T) + np.einsum('n,ni,nj->ij', d / 20., S, S)
    return d.sum(), m1, m2


def inertia_from_moments(m2):
    """Inertia matrix from second moments."""
    return np.trace(m2) * np.eye(3) - m2


def size(V):
    V = np.asarray(V, float)
    if len(V) == 0:
        return 1.
    return float(max(np.max(np.abs(V)), 1e-300))


def extent(V):
    V = np.asarray(V, float)
    return float(np.linalg.norm(V.max(axis=0) - V.min(axis=0)))


# --- rotations --------------------------------------------------------------------------------------------------
def rot_axis_angle(axis, angle):
    axis = np.asarray(axis, float)
    axis = axis / np.linalg.norm(axis)
    K = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    return np.eye(3) + np.sin(angle) * K + (1 - np.cos(angle)) * (K @ K)


def Rx(a):
    return np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])


def Ry(a):
    return np.array([[np.cos(a), 0, np.sin(a)], [0, 1, 0], [-np.sin(a), 0, np.cos(a)]])


def Rz(a):
    return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])


def rot_fixed(phi, theta, psi):
    """Rotation about the fixed axes x, then y, then z."""
    return Rz(psi) @ Ry(theta) @ Rx(phi)


# --- faces as point cycles ---------------------------------------------------------------------------------------
def cycles(F):
    return [tuple(int(i) for i in (f[:3] if f[0] == f[3] else f)) for f in np.asarray(F)]


def canon(cycle):
    """Canonical rotation of an oriented cycle of hashables."""
    k = min(range(len(cycle)), key=lambda i: tuple(cycle[i:] + cycle[:i]))
    return tuple(cycle[k:] + cycle[:k])


def canon_faces(V, F, digits=None):
    """Sorted multiset of oriented faces written as point cycles."""
    V = np.asarray(V, float)
    P = [tuple(p) for p in (np.round(V, digits) + 0. if digits is not None else V + 0.).tolist()]
    return sorted(canon(tuple(P[i] for i in c)) for c in cycles(F))


def canon_ids(F):
    return sorted(canon(c) for c in cycles(F))


def directed_edges(F):
    out = {}
    for k, c in enumerate(cycles(F)):
        for i in range(len(c)):
            out.setdefault((c[i - 1], c[i]), []).append(k)
    return out


def undirected_edges(F):
    out = {}
    for k, c in enumerate(cycles(F)):
        for i in range(len(c)):
            e = (c[i - 1], c[i]) if c[i - 1] < c[i] else (c[i], c[i - 1])
            out.setdefault(e, []).append(k)
    return out


def components(nf, edges):
    """Connected components of faces through shared edges."""
    lab = list(range(nf))

    def find(i):
        while lab[i] != i:
            lab[i] = lab[lab[i]]
            i = lab[i]
        return i
    for fs in edges.values():
        for f in fs[1:]:
            a, b = find(fs[0]), find(f)
            if a != b:
                lab[a] = b
    return np.array([find(i) for i in range(nf)])


# --- clipping ------------------------------------------------------------------------------------------------------
def clip_polys(V, F, n, c):
    """Part of every face with n.x <= c as 3D polygons (Sutherland-Hodgman on the polygon of the face)."""
    out = []
    V = np.asarray(V, float)
    for cyc in cycles(F):
        P = V[list(cyc)]
        d = P @ n - c
        if (d <= 0).all():
            out.append(P)
            continue
        if (d >= 0).all():
            continue
        Q = []
        for i in range(len(P)):
            a, b, da, db = P[i - 1], P[i], d[i - 1], d[i]
            if (da < 0 < db) or (db < 0 < da):
                t = da / (da - db)
                Q.append(a + t * (b - a))
            if db <= 0:
                Q.append(b)
        if len(Q) >= 3:
            out.append(np.array(Q))
    return out


def polys_to_tris(polys):
    T = []
    for P in polys:
        for i in range(1, len(P) - 1):
            T.append((P[0], P[i], P[i + 1]))
    return np.array(T, float).reshape(-1, 3, 3)


def tri_vol_moments(T):
    d = np.einsum('ni,ni->n', T[:, 0], np.cross(T[:, 1], T[:, 2])) / 6.
    S = T.sum(axis=1)
    return d.sum(), (d[:, None] * S / 4.).sum(axis=0)


# --- hydrostatics below z = 0 ----------------------------------------------------------------------------------------
def hydro(V, F):
    """Integrals over the part of the closed surface (V,F) under z=0, by the divergence theorem on the wetted surface.

    Exact for planar faces: quadratic and cubic polynomials are integrated with exact triangle formulas."""
    P = clip_polys(V, F, np.array([0., 0., 1.]), 0.)
    T = polys_to_tris(P)
    res = dict(volume=0., awp=0., wetted=0.)
    if len(T) == 0:
        return None
    N = 0.5 * np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0])
    a = np.linalg.norm(N, axis=1)
    x, y, z = T[:, :, 0], T[:, :, 1], T[:, :, 2]

    def I1(f):                      # mean of a linear function
        return f.mean(axis=1)

    def I2(f, g):                   # mean of a product of two linear functions
        return ((f * g).sum(axis=1) + f.sum(axis=1) * g.sum(axis=1)) / 12.
    nz = N[:, 2]
    vol = (nz * I1(z)).sum()
    res['volume'] = vol
    res['wetted'] = a.sum()
    res['cob'] = np.array([(nz * I2(x, z)).sum(), (nz * I2(y, z)).sum(), (nz * I2(z, z)).sum() / 2.]) / vol
    res['awp'] = -nz.sum()
    res['sx'] = -(nz * I1(x)).sum()
    res['sy'] = -(nz * I1(y)).sum()
    res['ixx'] = -(nz * I2(y, y)).sum()         # int y^2 dA
    res['iyy'] = -(nz * I2(x, x)).sum()         # int x^2 dA
    res['ixy'] = -(nz * I2(x, y)).sum()         # int xy dA
    top = np.abs(T[:, :, 2])
    allp = T.reshape(-1, 3)
    res['zmin'] = allp[:, 2].min()
    res['tris'] = T
    wl = allp[np.abs(allp[:, 2]) < 1e-9 * (1 + extent(V))]
    res['wl'] = wl
    return res


# --- comparing surfaces face by face ---------------------------------------------------------------------------------
def match_faces(V1, F1, V2, F2, tol, oriented=True):
    """Greedy one-to-one matching of two lists of faces as oriented point cycles.

    Returns (unmatched of 1, unmatched of 2, matched pairs that only agree with the opposite orientation)."""
    from scipy.spatial import cKDTree
    c1, c2 = cycles(F1), cycles(F2)
    if len(c1) == 0 or len(c2) == 0:
        return list(range(len(c1))), list(range(len(c2))), []
    V1, V2 = np.asarray(V1, float), np.asarray(V2, float)
    g1 = np.array([V1[list(c)].mean(axis=0) for c in c1])
    g2 = np.array([V2[list(c)].mean(axis=0) for c in c2])
    tree = cKDTree(g2)
    free = np.ones(len(c2), bool)
    un1, rev = [], []
    for i, cand in enumerate(tree.query_ball_point(g1, 4 * tol + 1e-300)):
        P = V1[list(c1[i])]
        best = None
        for j in sorted(cand):
            if not free[j] or len(c2[j]) != len(c1[i]):
                continue
            Q = V2[list(c2[j])]
            n = len(P)
            if any(np.abs(np.roll(Q, k, axis=0) - P).max() <= tol for k in range(n)):
                best = (j, False)
                break
            if best is None and any(np.abs(np.roll(Q[::-1], k, axis=0) - P).max() <= tol for k in range(n)):
                best = (j, True)
        if best is None:
            un1.append(i)
        else:
            free[best[0]] = False
            if best[1]:
                rev.append(i)
    return un1, [int(j) for j in np.where(free)[0]], rev


def is_consistent(F):
    """No directed edge is travelled twice."""
    return all(len(v) == 1 for v in directed_edges(F).values())
