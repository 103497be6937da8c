"""C29: a result depends on the arguments, not on the rest of the process nor on its surroundings."""
import contextlib
import copy
import gc
import io
import json
import locale
import os
import pickle
import random
import subprocess
import sys
import threading
import warnings
import numpy as np
from mon import gens, geom, probe
from mon.checks import c19, c20, c21, c25

PROP = 'C29'
LEVEL = 'exploration'
RULE = ('Jobs over the whole library (queries, healing, clipping, hydrostatics, equilibria, inertias, planes, rotations, writers, readers, command lines) are run once, then '
        'again on equal arguments (a) in the same process after disturbances: other objects built and modified through their public attributes, results overwritten, '
        'failing calls, calls interrupted at a random line, numpy, locale, warning and directory settings changed; (b) in several threads at once, switched every few '
        'microseconds; (c) in new processes with another hash seed, locale, output encoding, directory, optimisation level, number of BLAS threads.  Answers and files must be the same, '
        'and the settings of the process as they were.  Queries interrupted at a random line must leave a mesh that answers as a new one, '
        'meshes and files that take the memory, the name and the size of former ones are judged by their own content, and objects do not '
        'follow the arrays and meshes they were built from.')
ASSUMPTIONS = ['Answers are compared to a relative 1e-9.', 'Jobs that draw random numbers (restarts of the equilibrium of hydrostatics_old) are left out.',
               'Threads work on objects of their own, and not with VTK, which is not made for it.', 'Of the command line output, the lines with a date are left out.']
REQUIRED = ('history', 'defaults', 'settings', 'threads', 'process', 'interrupted-query', 'reborn', 'kept')
N = {'quick': 240, 'thorough': 2000}


def preload():
    import vtk  # noqa
    from meshmagick import cli, hydrostatics_old, rotations, densities  # noqa
    vtk.vtkObject.GlobalWarningDisplayOff()


def cases(tier, seed):
    n = N[tier]
    return ([('history', k, {}) for k in range(n)] + [('threads', k, {}) for k in range(n // 4)] + [('process', k, {}) for k in range(24 if tier == 'quick' else 160)] +
            [('query', k, {}) for k in range(n // 2)] + [('reborn', k, {}) for k in range(n // 4)] + [('kept', k, {}) for k in range(n // 4)])


def run(ctx):
    return globals()['k_' + ctx.kind](ctx)


# ---- jobs: make(rng) -> arguments (plain data); f(arguments) -> answers.  They read and write files of the current directory of their own name only.

def hull(rng):
    k = int(rng.integers(3))
    if k == 0:
        V, F = gens.barge(2, 2, 2, 10., 4., 3., 1.5 + float(rng.uniform(-.3, .3)))
    elif k == 1:
        V, F = gens.wigley(6, 3, 10., 3., 1.2, .9)
    else:
        V, F = gens.barge(3, 1, 2, 12., 5., 3., 1.)
        V = V.copy()
        V[:, 1] *= 1 + .1 * V[:, 2]
    return np.array(V, float) + [float(rng.uniform(-1, 1)), 0, .0123], np.array(F, int)


def body(rng):
    V, F, _ = gens.solid(rng)
    while len(F) > 200:
        V, F, _ = gens.solid(rng)
    if rng.random() < .3:
        V, F = gens.open_part(V, F, rng)
        u, F = np.unique(F, return_inverse=True)
        V, F = V[u], F.reshape(-1, 4)
    return np.array(V, float), np.array(F, int)


def j_queries(V, F, tag):
    from meshmagick.mesh import Mesh
    m = Mesh(V, F)
    return [probe.QUERIES[q][0](m) for q in sorted(probe.QUERIES)] + [str(m).split('\n', 4)[-1]]


def j_clip(V, F, tag):
    from meshmagick.mesh import Mesh
    from meshmagick.mesh_clipper import MeshClipper
    c = MeshClipper(Mesh(V - [0, 0, .5 * (V[:, 2].min() + V[:, 2].max()) + .0137], F))
    return [c.clipped_mesh, c.lower_mesh, c.upper_mesh, c.crown_mesh, c.clipped_crown_mesh, [sorted(map(int, p)) for p in c.closed_polygons], len(c.open_lines), c.plane]


def j_heal(V, F, tag):
    from meshmagick.mesh import Mesh
    W, G = gens.panels(V, F)
    G = G.copy()
    G[::3] = G[::3, ::-1]
    m = Mesh(np.vstack([W, W[:2]]), G)
    m.heal_mesh()
    n = Mesh(W, G)
    return [m, n.merge_duplicates(return_index=True), n, m.volume]


def j_change(V, F, tag):
    from meshmagick.mesh import Mesh, Plane
    m = Mesh(V, F)
    m.rotate([.1, -.2, .3])
    m.translate([1., 2., 3.])
    m.scale(1.5)
    n = m.copy()
    n.mirror(Plane())
    p = m + n
    q = m.extract_faces([0, m.nb_faces - 1])
    n.triangulate_quadrangles()
    m.symmetrize(Plane())
    return [m, n, p, q]


def j_inertia(V, F, tag):
    from meshmagick import inertia
    from meshmagick.mesh import Mesh
    m = Mesh(V, F)
    a, b = m.eval_plain_mesh_inertias(), m.eval_shell_mesh_inertias()
    s = [inertia.right_circular_cylinder(1., 2.), inertia.sphere(2.), inertia.rectangular_prism(1., 2., 3., density=2.), inertia.right_circular_cone(1., 2.)]
    c = inertia.RigidBodyInertia(2., [1., 2., 3.], 4., 5., 6., .1, .2, .3)
    c.reduction_point = [3., 2., 1.]
    return [a, b, c, a.at_cog] + s + [str(c), np.array(m.get_surface_integrals())]


def j_plane(V, F, tag):
    from meshmagick.mesh import Plane
    out = []
    for p in (Plane(), Plane([1., 2., 2.], .3)):
        out += [p, p.get_point_dist_wrt_plane(V), p.coord_in_plane(V), p.orthogonal_projection_on_plane(V), p.get_origin(), np.array(p.get_normal_orientation_wrt_z())]
    return out


def j_rotations(V, F, tag):
    from meshmagick import rotations as r
    a = np.arctan(V[:3].ravel()[:3])
    R = r.cardan_to_rotmat(*a)
    q = r.rotmat_to_quat(R) if hasattr(r, 'rotmat_to_quat') else 0
    return [R, q, np.array(r.rotmat_to_cardan(R))]


def j_hydro(V, F, tag):
    from meshmagick import hydrostatics as h
    from meshmagick.mesh import Mesh
    m = Mesh(V, F)
    hs = h.compute_hydrostatics(m, np.array([0., 0., .1]), 1025., 9.81)
    z = h.displacement_equilibrium(m, .8 * hs['disp_mass'] / 1000., 1025., 9.81)
    return [{k: v for k, v in hs.items()}, z, h.get_hydrostatic_report(hs)]


def j_full(V, F, tag):
    from meshmagick import hydrostatics as h
    from meshmagick.mesh import Mesh
    m = Mesh(V, F)
    hs = h.compute_hydrostatics(m, np.zeros(3), 1025., 9.81)
    G = hs['buoyancy_center'] + [.02, .01, .1]
    return list(h.full_equilibrium(m, G, hs['disp_mass'] / 1000., 1025., 9.81))


def j_old(V, F, tag):
    from meshmagick.hydrostatics_old import Hydrostatics, Force
    from meshmagick.mesh import Mesh
    H = Hydrostatics(Mesh(V, F))
    H.add_force(Force([0., 0., 1.], [0., 0., -1000.]))
    a = [H.displacement, np.array(H.buoyancy_center), H.S33, H.S44, H.S55, np.array(H.residual), H.hydrostatic_mesh]
    f = Force([1., 2., 3.], [1., 0., -5.], mode='absolute')
    f.update()
    return a + [np.array(f.hs_force), np.array(H.get_gravity_force().hs_force)]


def undated(b):
    """The lines of a file that do not tell when and under which name it was written."""
    return b'\n'.join(l for l in b.split(b'\n') if b'generated by' not in l.lower() and b'file :' not in l.lower())


def j_files(V, F, tag):
    from meshmagick import mmio
    out = []
    for fmt in ('mar', 'gdf', 'nem', 'nat', 'tec', 'stl', 'pnl', 'hst', 'rad', 'diodore-dat') + (() if tag[0] == 't' else ('vtk', 'vtp', 'vtu')):
        n = 'j%s.%s' % (tag, 'dat' if fmt == 'diodore-dat' else fmt)
        try:
            mmio.write_mesh(n, V, F, fmt)
        except NotImplementedError:
            continue
        n = n if os.path.exists(n) else n[:-3] + n[-3:].upper()
        if fmt not in ('vtk', 'vtp', 'vtu'):
            with open(n, 'rb') as f:
                out.append(undated(f.read()).replace(b'J' + tag.upper().encode(), b'NAME'))
        out.append(list(mmio.load_mesh(n, fmt)))
        os.remove(n)
    return out


def j_foreign(V, F, tag):
    from meshmagick import mmio
    out = []
    rng = np.random.default_rng(len(V))
    if tag[0] != 't':
        W, G = c21.w_inp('f%s.inp' % tag, np.round(V, 6), F, rng)
        out.append(list(mmio.load_mesh('f%s.inp' % tag, 'inp')))
    for fmt in ('mar', 'msh22', 'msh41', 'tec', 'hst') + (() if tag[0] == 't' else ('wrl', 'vtp', 'obj')):
        n = 'f%s.%s' % (tag, 'msh' if fmt.startswith('msh') else fmt)
        c21.WRITERS[fmt](n, np.round(V, 6), F, rng)
        out.append(list(mmio.load_mesh(n, fmt[:3])))
        os.remove(n)
    return out


def j_cli(V, F, tag):
    from mon.checks.c23 import cli
    n, o, r = 'c%s.nem' % tag, 'c%so.gdf' % tag, 'c%s.txt' % tag
    c21.WRITERS['nem'](n, np.round(V, 6), F, np.random.default_rng(1))
    out = []
    for args in ([n, '-t', '1', '2', '.5', '-rx', '10', '-sym', '-o', o], [n, '-md', '-hm', '-tq', '-i', '-o', o], [n, '-pi', '-si', '-o', o],
                 [n, '-hs', '-zg', '.1', '--hs-report', r, '-o', o], [n, '-c', '-o', o]):
        e, t = cli(args)
        t = '\n'.join(l for l in t.splitlines() if ':' not in l or not any(c.isdigit() for c in l.split(':')[0][-2:]))
        out.append([repr(e), t])
        for f in (o, r):
            if os.path.exists(f):
                if f == o:
                    with open(f, 'rb') as g:
                        out.append(undated(g.read()))
                os.remove(f)
    os.remove(n)
    return out


BODY = {'queries': j_queries, 'clip': j_clip, 'heal': j_heal, 'change': j_change, 'inertia': j_inertia, 'plane': j_plane, 'rotations': j_rotations, 'files': j_files, 'foreign': j_foreign}
HULL = {'hydro': j_hydro, 'full': j_full, 'old': j_old, 'clip hull': j_clip}
ALONE = {'cli': j_cli}
JOBS = dict(BODY, **HULL, **ALONE)


def make(rng, name):
    V, F = hull(rng) if name in HULL or name in ALONE else body(rng)
    return np.round(V, 7) + 0., F


def work(name, V, F, tag, quiet=True):
    """The answers of a job as plain data, or the error."""
    from contextlib import nullcontext
    with (contextlib.redirect_stdout(io.StringIO()) if quiet else nullcontext()):
        try:
            return ('ok',) + c25.flat(JOBS[name](V.copy(), F.copy(), tag))
        except Exception as e:
            return ('exc', type(e).__name__, str(e)[:200])


def same(a, b):
    if a[0] != b[0] or a[1] != b[1]:
        return False
    if a[0] == 'exc':
        return a[2] == b[2]
    return len(a[2]) == len(b[2]) and all(u.shape == v.shape and np.allclose(u, v, rtol=1e-9, atol=1e-9 * (np.abs(u[np.isfinite(u)]).max() if np.isfinite(u).any() else 0), equal_nan=True)
                                          for u, v in zip(a[2], b[2]))


def diff(a, b):
    if a[0] != b[0] or a[0] == 'exc':
        return '%s / %s' % (str(a)[:160], str(b)[:160])
    if a[1] != b[1]:
        s, t = repr(a[1]), repr(b[1])
        i = next((i for i, (x, y) in enumerate(zip(s, t)) if x != y), min(len(s), len(t)))
        return 'at %d: ...%s / ...%s' % (i, s[max(0, i - 60):i + 60], t[max(0, i - 60):i + 60])
    for i, (u, v) in enumerate(zip(a[2], b[2])):
        if u.shape != v.shape or not np.allclose(u, v, rtol=1e-9, atol=0, equal_nan=True):
            return 'number %d: %s / %s' % (i, str(u[:6]), str(v[:6]))
    return 'tiny differences'


# ---- disturbances: what a program may do between two calls, with other objects

class Interrupt(BaseException):
    pass


def interrupt_after(n, f):
    """Runs f, raising Interrupt at the n-th line executed in the library.  Returns (interrupted or not, lines seen)."""
    lib = os.sep + 'meshmagick' + os.sep
    left = [n]

    def local(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] == 0:
                raise Interrupt()
        return local

    def tracer(frame, event, arg):
        return local if lib in frame.f_code.co_filename else None
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        f()
        return False, n - left[0]
    except Interrupt:
        return True, n
    finally:
        sys.settrace(old)


def spoil(x, depth=0):
    """Overwrites in place everything a caller could overwrite in an answer."""
    if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype != object:
        with contextlib.suppress(Exception):
            x[...] = 7
    elif isinstance(x, dict):
        for v in list(x.values()):
            if depth < 3:
                spoil(v, depth + 1)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            if depth < 3:
                spoil(v, depth + 1)
        if isinstance(x, list):
            x[:] = []
    elif isinstance(x, set):
        x.clear()


def d_default_plane(rng, V, F):
    from meshmagick.mesh import Mesh
    from meshmagick.mesh_clipper import MeshClipper
    c = MeshClipper(Mesh(V, F))
    k = int(rng.integers(3))
    p = c.plane
    if k == 0:
        p.normal = rng.normal(size=3)
    elif k == 1:
        p.c = .3
    else:
        p.flip_normal()
    c.plane = p


def d_planes(rng, V, F):
    from meshmagick.mesh import Plane
    p, q = Plane(), Plane()
    p.normal[:] = [1, 0, 0]
    q.normal, q.c = [0., 1., 0.], 3.
    p.rotate_normal(.2, .3)
    q.set_plane_parameters(.1, .2, .3)


def d_hydro(rng, V, F):
    from meshmagick import hydrostatics as h
    from meshmagick.mesh import Mesh
    m = Mesh(V, F)
    hs = h.compute_hydrostatics(m, np.zeros(3), 1000., 9.)
    z, R = h.full_equilibrium(m, hs['buoyancy_center'] + [0, 0, .05], hs['disp_mass'] / 1000., 1000., 9.)
    spoil(R)
    spoil(hs)


def d_old(rng, V, F):
    from meshmagick.hydrostatics_old import Hydrostatics, Force
    from meshmagick.mesh import Mesh
    H = Hydrostatics(Mesh(V, F), rho_water=900., grav=5.)
    H.add_force(Force([0., 0., 1.], [3., 0., -1000.]))
    H.mass = 3.
    H.zg = 2.
    spoil(H.additional_forces)
    spoil(H.hs_data)


def d_answers(rng, V, F):
    from meshmagick.mesh import Mesh
    m = Mesh(V, F)
    for a in ('vv', 'vf', 'ff', 'boundaries', 'faces_areas', 'faces_normals', 'faces_centers', 'triangles_ids', 'quadrangles_ids', 'vertices', 'faces'):
        spoil(getattr(m, a))


def d_inertia(rng, V, F):
    from meshmagick import inertia, densities
    from meshmagick.mesh import Mesh
    i = Mesh(V, F).eval_plain_mesh_inertias()
    i.reduction_point = [1., 2., 3.]
    s = inertia.sphere(1.)
    for a in ('gravity_center', 'reduction_point', 'inertia_matrix'):
        spoil(getattr(s, a))
        spoil(getattr(i, a))
    spoil(densities.list_medium())


def d_fail(rng, V, F):
    from meshmagick import mmio
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.mesh_clipper import MeshClipper
    with open('bad.mar', 'w') as f:
        f.write('2 0\n1 0 0 zz\n')
    os.makedirs('failing', exist_ok=True)
    for n, t in (('bad.mar', '2 0\n1 0 0 zz\n'), ('bad.inp', '*FRAME,NAME=A\n0,0,0\n*NODE,INPUT=Nowhere,FRAME=A\n*ELEMENT,INPUT=Nowhere,TYPE=Q4C000,ELSTRUCTURE=B\n'), ('bad.gdf', 'x\n')):
        with open('failing/' + n, 'w') as f:
            f.write(t)
        with contextlib.suppress(Exception):
            mmio.load_mesh('failing/' + n, n[-3:])
    for e in ('msh', 'med', 'wrl', 'nem', 'mar'):
        with contextlib.suppress(Exception):
            mmio.write_mesh('failing/a.' + e, V, F, e)
        with contextlib.suppress(Exception):
            mmio.write_mesh('failing/a.' + e, V[:, :1], [[0, 1, 2, 'x']], e)
    for f in (lambda: mmio.load_mesh('none.mar', 'mar'), lambda: mmio.load_mesh('bad.mar', 'mar'), lambda: mmio.write_mesh('no/where.mar', V, F, 'mar'),
              lambda: mmio.write_mesh('x.zzz', V, F, 'zzz'), lambda: MeshClipper(Mesh(V, F), Plane([0, 0, 1.], 1e6)), lambda: MeshClipper(Mesh(V, F), Plane([0, 0, 1.], -1e6)),
              lambda: Plane([0, 0, 0.]), lambda: Mesh(V[:, :2], F), lambda: Mesh(V, F).scale(-1.)):
        with contextlib.suppress(Exception):
            f()
    os.remove('bad.mar')


def d_cli(rng, V, F):
    from mon.checks.c23 import cli
    c21.WRITERS['nem']('d.nem', np.round(V, 6), F, rng)
    for a in (['d.nem', '-p', '1', '0', '0', '.1', '-c', '0', '-q'], ['d.nem', '-sym', '-sym', 'Oyz'], ['d.nem', '-hs', '-zg', '0', '-wd', '900', '-g', '5'], ['d.nem', '--frobnicate'],
              ['d.nem', '-c', 'zzz'], ['nothing.nem', '-i'], ['d.nem', '-pi', '--rho-medium', '3', '-tz', '4']):
        cli(a)
    os.remove('d.nem')


def d_interrupted(rng, V, F):
    name = str(rng.choice(sorted(set(BODY) | set(HULL))))
    X, G = make(rng, name)
    n = int(10 ** rng.uniform(0, 4))
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            interrupt_after(n, lambda: JOBS[name](X, G, 'i'))
        except Exception:
            pass


def d_many(rng, V, F):
    from meshmagick.mesh import Mesh
    for i in range(40):
        m = Mesh(V + i, F)
        m.volume, m.vv
        del m
    gc.collect()


DISTURB = [d_default_plane, d_planes, d_hydro, d_old, d_answers, d_inertia, d_fail, d_cli, d_interrupted, d_many]


def settings():
    return {'errors of numpy': np.geterr(), 'printing of numpy': {k: repr(v) for k, v in np.get_printoptions().items()}, 'warning filters': list(warnings.filters),
            'directory': os.getcwd(), 'environment': dict(os.environ), 'locale': locale.setlocale(locale.LC_ALL), 'random state': random.getstate(),
            'recursion limit': sys.getrecursionlimit(), 'arguments': list(sys.argv), 'path': list(sys.path), 'output': (id(sys.stdout), id(sys.stderr)), 'hooks': (sys.excepthook, sys.gettrace()),
            'random state of numpy': [repr(x) for x in np.random.get_state()[1:3]] + [np.random.get_state()[1].tobytes()], 'file mode mask': umask()}


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


@contextlib.contextmanager
def surroundings(rng):
    """Other settings of the process, put back at the end."""
    old = np.geterr(), np.get_printoptions(), os.getcwd(), locale.setlocale(locale.LC_ALL)
    said = []
    with warnings.catch_warnings():
        try:
            if rng.random() < .5:
                np.seterr(**{k: str(rng.choice(['ignore', 'warn'])) for k in ('divide', 'over', 'under', 'invalid')})
                said.append('seterr')
            if rng.random() < .5:
                np.set_printoptions(precision=2, threshold=3, suppress=True)
                said.append('printoptions')
            if rng.random() < .5:
                warnings.simplefilter(str(rng.choice(['ignore', 'always'])))
                said.append('filters')
            if rng.random() < .5:
                os.makedirs('elsewhere', exist_ok=True)
                os.chdir('elsewhere')
                said.append('chdir')
            if rng.random() < .5:
                locale.setlocale(locale.LC_ALL, str(rng.choice(['C', 'C.UTF-8'])))
                said.append('locale')
            if rng.random() < .5:
                np.random.seed(int(rng.integers(1000)))
                random.seed(3)
                said.append('seeds')
            yield said
        finally:
            np.seterr(**old[0])
            np.set_printoptions(**{k: v for k, v in old[1].items() if k != 'override_repr'})
            os.chdir(old[2])
            locale.setlocale(locale.LC_ALL, old[3])


def k_history(ctx):
    rng = ctx.rng
    names = [str(n) for n in rng.choice(sorted(JOBS), 4, replace=False)]
    jobs = [(n,) + make(rng, n) for n in names]
    ctx.distinct(tuple(names), *[j[1] for j in jobs])
    ctx.sample = {'jobs': names}
    refs = [work(*j, tag='a') for j in jobs]
    for n, r in zip(names, refs):
        ctx.saw('job ' + n, '%s %s' % (n, r[0] if r[0] == 'ok' else r[1]))
    ds = [DISTURB[i] for i in rng.choice(len(DISTURB), 4, replace=False)]
    done = []
    for d in ds:
        V, F = hull(rng)
        s0 = settings()
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                d(rng, V, F)
                done.append(d.__name__)
            except Exception as e:
                done.append(d.__name__ + ' ' + type(e).__name__)
        s1 = settings()
        ctx.check('settings', s0 == s1 or d is d_interrupted, '%s changes settings of the process: %r' % (done[-1], [k for k in s0 if s0[k] != s1[k]]))
        if s0['directory'] != s1['directory']:
            os.chdir(s0['directory'])
    ctx.sample['disturbances'] = done
    ctx.saw(*done)
    o = 'defaults' if 'd_default_plane' in done or 'd_hydro' in done else 'history'
    for j, r in zip(jobs, refs):
        b = work(*j, tag='a')
        ctx.check(o, same(r, b), 'job %s after %r: other answers: %s' % (j[0], done, diff(r, b)))
    with surroundings(rng) as said:
        for j, r in zip(jobs, refs):
            s0 = settings()
            b = work(*j, tag='a')
            s1 = settings()
            ctx.check('settings', s0 == s1, 'job %s changes settings of the process: %r' % (j[0], [k for k in s0 if s0[k] != s1[k]]))
            ctx.check('history', same(r, b), 'job %s with other settings %r: other answers: %s' % (j[0], said, diff(r, b)))
        ctx.saw(*said)


def k_threads(ctx):
    rng = ctx.rng
    names = [str(n) for n in rng.choice(sorted(set(BODY) | set(HULL)), 4)]
    if rng.random() < .5:
        names = names[:1] * 4
    jobs = [(n,) + make(rng, n) for n in names]
    ctx.distinct(tuple(names), *[j[1] for j in jobs])
    ctx.sample = {'jobs': names}
    refs = [work(*j, tag='t') for j in jobs]
    got = [None] * 4
    bar = threading.Barrier(4)

    def one(i):
        bar.wait()
        got[i] = [work(*jobs[i], tag='t%d' % i, quiet=False) for _ in range(2)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(5e-6)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            T = [threading.Thread(target=one, args=(i,), daemon=True) for i in range(4)]
            for t in T:
                t.start()
            for t in T:
                t.join(120)
    finally:
        sys.setswitchinterval(old)
    for i in range(4):
        ctx.saw('thread ' + names[i])
        ctx.check('threads', got[i] is not None and all(same(refs[i], g) for g in got[i]), 'job %s in a thread beside %r: other answers: %s' % (
            names[i], names, got[i] and diff(refs[i], [g for g in got[i] if not same(refs[i], g)][0] if any(not same(refs[i], g) for g in got[i]) else refs[i])))


ENVS = [({'PYTHONHASHSEED': '0', 'LC_ALL': 'C', 'TZ': 'Asia/Tokyo'}, []), ({'PYTHONHASHSEED': '4242', 'LC_ALL': 'C.UTF-8', 'PYTHONIOENCODING': 'ascii'}, []),
        ({'PYTHONHASHSEED': '77', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'LC_ALL': 'POSIX', 'COLUMNS': '40'}, ['-O']),
        ({'PYTHONHASHSEED': '1', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'HOME': '/nonexistent'}, ['-W', 'ignore']),
        ({'PYTHONHASHSEED': '31337', 'LC_ALL': 'C.UTF-8', 'PYTHONIOENCODING': 'utf-16', 'PYTHONUNBUFFERED': '1'}, ['-X', 'dev'])]


def k_process(ctx):
    rng = ctx.rng
    names = [str(n) for n in rng.permutation(sorted(JOBS))]
    jobs = [(n,) + make(rng, n) for n in names]
    ctx.distinct(tuple(names), *[j[1] for j in jobs])
    refs = [work(*j, tag='p') for j in jobs]
    env, flags = ENVS[ctx.idx % len(ENVS)]
    ctx.sample = {'jobs': names, 'environment': env, 'flags': flags}
    order = [int(i) for i in rng.permutation(len(jobs))]
    with open('jobs.pkl', 'wb') as f:
        pickle.dump([jobs[i] for i in order], f)
    os.makedirs('other place', exist_ok=True)
    import meshmagick
    roots = [os.path.dirname(os.path.dirname(os.path.abspath(meshmagick.__file__))), os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))]
    e = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG', 'PYTHON'))}
    e.update(env, PYTHONPATH=os.pathsep.join(roots), PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable] + flags + ['-c', 'from mon.checks import c29; c29.child()'], cwd='other place', env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=300)
    if not ctx.check('process', p.returncode == 0 and os.path.exists('answers.pkl'), 'with %r %r the process ends with %r: %s' % (env, flags, p.returncode, p.stderr[-300:])):
        return
    with open('answers.pkl', 'rb') as f:
        got = pickle.load(f)
    ctx.saw('environment %d' % (ctx.idx % len(ENVS)))
    for i, g in zip(order, got):
        ctx.check('process', same(refs[i], g), 'job %s in a process with %r %r: other answers: %s' % (names[i], env, flags, diff(refs[i], g)))


def child():
    preload()
    with open('../jobs.pkl', 'rb') as f:
        jobs = pickle.load(f)
    out = [work(*j, tag='p', quiet=j[0] == 'cli') for j in jobs]
    with open('../answers.pkl', 'wb') as f:
        pickle.dump(out, f)


def k_query(ctx):
    """A query interrupted anywhere (a key pressed, no memory left): the mesh is as it was and answers as a new one."""
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    V, F = body(rng)
    m = Mesh(V, F)
    qs = sorted(probe.QUERIES)
    ctx.distinct(V, F)
    hist = []
    for _ in range(6):
        q = str(rng.choice(qs))
        n = int(10 ** rng.uniform(0, 3.5))
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                hit, seen = interrupt_after(n, lambda: probe.QUERIES[q][0](m))
            except Exception as e:
                hit, seen = False, 0
        hist.append('%s@%d' % (q, n) if hit else q)
        if hit:
            ctx.saw('interrupted ' + q)
    ctx.sample = {'queries': hist}
    ctx.check('interrupted-query', np.array_equal(m.vertices, V) and np.array_equal(m.faces, F), 'interrupted queries %r change the mesh' % hist)
    w = Mesh(V, F)
    for q in [str(x) for x in rng.permutation(qs)]:
        a, b = c25.call(probe.QUERIES[q][0], w), c25.call(probe.QUERIES[q][0], m)
        ctx.check('interrupted-query', a[0] == b[0] and (a[0] == 'exc' and a[1] == b[1] or c25.alike(a[1], b[1])), 'after interrupted queries %r, %s answers %s, a new mesh %s' % (
            hist, q, str(b)[:120], str(a)[:120]))


def k_reborn(ctx):
    """Meshes and files that take the place (memory, name, size, time) of former ones."""
    from meshmagick import mmio
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    V, F = body(rng)
    V = np.round(V, 4) + 0.
    twins = [(V, F), (V, F[:, ::-1].copy()), (V[:, [1, 2, 0]].copy(), F), (-V[::-1].copy(), len(V) - 1 - F)]
    keep = [Mesh(*t) for t in twins]
    qs = [str(q) for q in rng.choice(sorted(probe.QUERIES), 4, replace=False)] + ['volume']
    refs = [[c25.call(probe.QUERIES[q][0], m) for q in qs] for m in keep]
    ctx.distinct(V, F)
    ctx.sample = {'queries': qs}
    q = 0
    for k in range(60):
        i = int(rng.integers(len(twins)))
        q = q if rng.random() < .7 else int(rng.integers(len(qs)))
        m = Mesh(*twins[i])
        a, b = c25.call(probe.QUERIES[qs[q]][0], m), refs[i][q]
        if not ctx.check('reborn', a[0] == b[0] and (a[0] == 'exc' and a[1] == b[1] or c25.alike(a[1], b[1])), '%s of a mesh built after others were destroyed: %s, expected %s' % (
                qs[q], str(a)[:100], str(b)[:100])):
            break
        del m
    fmt = str(rng.choice(['mar', 'nem', 'nat', 'pnl', 'tec', 'gdf', 'hst']))
    for k in range(6):
        i = int(rng.integers(len(twins)))
        with contextlib.redirect_stdout(io.StringIO()):
            mmio.write_mesh('same.' + fmt, twins[i][0], twins[i][1], fmt)
            W, G = mmio.load_mesh('same.' + fmt, fmt)
        X = twins[i][0][twins[i][1]]
        ctx.check('reborn', W[G].shape == X.shape and np.abs(W[G] - X).max() <= 2e-5 * (1 + np.abs(X).max()), '%s: a file rewritten under the same name is read as another mesh' % fmt)


def k_kept(ctx):
    """Objects built from arrays and meshes of the caller: what the caller does with them afterwards changes none of their answers."""
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.mesh_clipper import MeshClipper
    from meshmagick.inertia import RigidBodyInertia
    from meshmagick.hydrostatics_old import Hydrostatics, Force
    from meshmagick import hydrostatics as hs
    rng = ctx.rng
    V, F = hull(rng)
    a, b, d = rng.normal(size=3), rng.normal(size=3), rng.normal(size=(3, 3))
    g = np.array([.01, .02, -.1])
    E = rng.uniform(1, 9, 6)
    R = np.eye(3)

    def later(o, name, value):
        setattr(o, name, value)
        return o

    def hydro(V, F, g, R):
        m = Mesh(V, F)
        return m, hs.compute_hydrostatics(m, g, 1025., 9.81, rotmat_corr=R)

    def clip(V, F, n):
        m, p = Mesh(V, F), Plane(n, .013)
        return m, p, MeshClipper(m, p)

    def force(p, v):
        return Force(p, v)

    def set_cog(g):
        I = RigidBodyInertia(3., [0., 0, 0], *E, point=[1., 2, 3])
        I.set_cog(g)
        return I

    def extracted(V, F, i):
        m = Mesh(V, F)
        return m, m.extract_faces(i)

    def inertia_of(V, F):
        m = Mesh(V, F)
        return m, m.eval_plain_mesh_inertias(1000.)

    def rigid(I):
        return [I.mass, I.gravity_center, I.reduction_point, I.inertia_matrix, I.at_cog.inertia_matrix, str(I)]

    def shape(m):
        return [m.vertices, m.faces, m.volume, m.faces_areas, m.faces_centers, len(m.boundaries)]

    def move(m):
        m.translate([.5, .1, .2])
        m.rotate([.1, .2, .3])
        m.flip_normals()

    def old(V, F, g):
        m = Mesh(V, F)
        return m, Hydrostatics(m, cog=g)

    def floats(H):
        return [H.displacement_volume, H.buoyancy_center, H.gravity_center, H.hydrostatic_stiffness_matrix, H.mesh.vertices, H.residual]

    kinds = {  # builder, arguments, answers, what is done to the objects inside
        'mesh': (Mesh, (V, F), shape, None),
        'vertices': (lambda V: later(Mesh(V * 2, F), 'vertices', V), (V,), shape, None),
        'faces': (lambda f: later(Mesh(V, F), 'faces', f), (F[:, ::-1].copy(),), shape, None),
        'plane': (lambda n: Plane(n, .3), (a,), lambda p: [p.normal, p.c, p.get_origin(), p.coord_in_plane(b[None])], None),
        'normal': (lambda n: later(Plane(), 'normal', n), (a,), lambda p: [p.normal, p.coord_in_plane(b[None])], None),
        'inertia': (lambda g, p: RigidBodyInertia(3., g, *E, point=p), (a, b), rigid, None),
        'inertia at cog': (lambda g: RigidBodyInertia(3., g, *E), (a,), rigid, None),
        'set_cog': (set_cog, (a,), rigid, None),
        'reduction point': (lambda p: later(RigidBodyInertia(3., b, *E), 'reduction_point', p), (a,), rigid, None),
        'force': (force, (a, b), lambda f: [f.point, f.value, f.hs_force], None),
        'hydrostatics': (hydro, (V, F, g, R), lambda o: [o[1][k] for k in sorted(o[1]) if k != 'mesh'] + [o[1]['mesh'].vertices, hs.get_hydrostatic_report(o[1])], lambda o: move(o[0])),
        'clipper': (clip, (V, F, np.array([0, 0, 1.])), lambda o: [shape(o[2].clipped_mesh), shape(o[2].lower_mesh), o[2].closed_polygons, o[2].closed_polygons_vertices],
                    lambda o: move(o[0])),
        'extraction': (extracted, (V, F, np.arange(0, len(F), 2)), lambda o: shape(o[1]), lambda o: move(o[0])),
        'inertia of a mesh': (inertia_of, (V, F), lambda o: rigid(o[1]), lambda o: move(o[0])),
        'old': (old, (V, F, g), lambda o: floats(o[1]), lambda o: move(o[0])),
    }
    for k in [str(x) for x in rng.choice(sorted(kinds), 6, replace=False)]:
        build, args, ask, inside = kinds[k]
        with contextlib.redirect_stdout(io.StringIO()):
            want = ('ok',) + c25.flat(copy.deepcopy(ask(build(*[x.copy() for x in args]))))
            mine = [x.copy() for x in args]
            o = build(*mine)
            early = rng.random() < .5
            if early:
                ask(o)
            for x in mine:
                if x.dtype.kind == 'f':
                    x += rng.normal(size=x.shape)
                else:
                    x[...] = x[::-1].copy()
            if inside is not None:
                inside(o)
            got = ('ok',) + c25.flat(ask(o))
        ctx.distinct(k, *args)
        ctx.check('kept', same(want, got), '%s: its answers follow the arrays or the meshes of the caller, changed %s (%s)' % (k, 'after a query' if early else 'at once', diff(want, got)))
