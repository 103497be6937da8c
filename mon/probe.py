"""Observation of a Mesh through its public API only."""
import numpy as np
from . import geom


def canon_boundaries(b):
    out = []
    for cyc in b:
        c = [int(i) for i in cyc]
        if len(c) > 1 and c[0] == c[-1]:
            c = c[:-1]
        out.append(geom.canon(tuple(c)))
    return sorted(out)


def canon_dict(d):
    return {int(k): sorted(int(i) for i in v) for k, v in d.items()}


def q_areas(m):
    return np.array(m.faces_areas, float)


def q_normals(m):
    return np.array(m.faces_normals, float)


def q_centers(m):
    return np.array(m.faces_centers, float)


def q_tri(m):
    return [int(i) for i in m.triangles_ids]


def q_quad(m):
    return [int(i) for i in m.quadrangles_ids]


def q_counts(m):
    return (int(m.nb_vertices), int(m.nb_faces), int(m.nb_triangles), int(m.nb_quadrangles))


def q_vv(m):
    return canon_dict(m.vv)


def q_vf(m):
    return canon_dict(m.vf)


def q_ff(m):
    return canon_dict(m.ff)


def q_bound(m):
    return canon_boundaries(m.boundaries)


def q_closed(m):
    return bool(m.is_mesh_closed()), int(m.nb_boundaries)


def q_integrals(m):
    return np.array(m.get_surface_integrals(), float)


def q_volume(m):
    return float(m.volume)


def q_bbox(m):
    return np.array(m.axis_aligned_bbox, float)


def q_sbbox(m):
    return np.array(m.squared_axis_aligned_bbox, float)


def q_edges(m):
    return np.array([m.min_edge_length, m.max_edge_length, m.mean_edge_length], float)


def q_plain(m):
    i = m.eval_plain_mesh_inertias(rho_medium=1.)
    return np.concatenate([[i.mass], np.asarray(i.inertia_matrix).ravel()])


def q_shell(m):
    i = m.eval_shell_mesh_inertias(rho_medium=1., thickness=1.)
    return np.concatenate([[i.mass], np.asarray(i.inertia_matrix).ravel()])


# name -> (query, kind of comparison, exponent of the length scale)
QUERIES = {
    'faces_areas': (q_areas, 'num', 2), 'faces_normals': (q_normals, 'normals', 0), 'faces_centers': (q_centers, 'centers', 1),
    'triangles_ids': (q_tri, 'eq', 0), 'quadrangles_ids': (q_quad, 'eq', 0), 'counts': (q_counts, 'eq', 0),
    'vv': (q_vv, 'eq', 0), 'vf': (q_vf, 'eq', 0), 'ff': (q_ff, 'eq', 0), 'boundaries': (q_bound, 'eq', 0),
    'closed': (q_closed, 'eq', 0), 'surface_integrals': (q_integrals, 'int', 0), 'volume': (q_volume, 'num', 3),
    'axis_aligned_bbox': (q_bbox, 'num', 1), 'squared_bbox': (q_sbbox, 'num', 1), 'edge_lengths': (q_edges, 'num', 1),
    'plain_inertia': (q_plain, 'mom', 5), 'shell_inertia': (q_shell, 'mom', 4),
}
TOPO = ('vv', 'vf', 'ff', 'boundaries', 'closed')


def ask(m, name):
    try:
        return 'ok', QUERIES[name][0](m)
    except Exception as exc:
        return 'exc', type(exc).__name__


def same(ctx, oracle, name, a, b, V, F, msg):
    """Compares two answers of the same query."""
    if a[0] != b[0] or a[0] == 'exc':
        return ctx.check(oracle, a == b, '%s: %s answers %r, the other %r' % (msg, name, a, b))
    x, y = a[1], b[1]
    mode, p = QUERIES[name][1:]
    if mode == 'eq':
        return ctx.check(oracle, x == y, '%s: %s differs: %.300r, expected %.300r' % (msg, name, x, y))
    s = geom.size(V)
    if mode == 'num':
        return ctx.close(oracle, x, y, 1e-9 * s ** p, '%s: %s' % (msg, name))
    if mode == 'mom':
        n = len(np.atleast_1d(y))
        atol = np.full(n, 1e-9 * s ** p)
        atol[0] = 1e-9 * s ** (p - 2)
        return ctx.close(oracle, x, y, atol, '%s: %s' % (msg, name))
    if mode == 'int':
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return ctx.check(oracle, False, '%s: %s has shape %s, expected %s' % (msg, name, x.shape, y.shape))
        p = np.repeat([3, 4, 4, 5, 5], 3)
        return ctx.close(oracle, x, y, 1e-9 * (s ** p)[:, None] * np.ones(x.shape), '%s: %s' % (msg, name))
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return ctx.check(oracle, False, '%s: %s has shape %s, expected %s' % (msg, name, x.shape, y.shape))
    ok = geom.face_areas(V, F) > 1e-7 * s * s
    if mode == 'normals':
        return ctx.close(oracle, x[ok], y[ok], 1e-6, '%s: %s' % (msg, name))
    return ctx.close(oracle, x[ok], y[ok], 1e-8 * s, '%s: %s' % (msg, name))
