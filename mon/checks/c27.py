"""C27: what the viewer shows, does on each key, and leaves behind."""
import contextlib
import io
import os
import numpy as np
from mon import gens, geom
from mon.checks import c19, c26
from mon.checks.c23 import cli, put, load, small_mesh, nm

PROP = 'C27'
LEVEL = 'exploration'
RULE = ('The real viewer is driven without a display: the classes of VTK that open the window and run the event loop are replaced by subclasses whose event loop plays a random '
        'user (sequences of the documented keys, then the window is closed), and after each key the scene - every visible actor of the window, its points, cells, colour, '
        'representation - is compared with the mesh, bodies, forces given and with the toggles pressed so far.  A part of the cases really renders (software EGL) and judges the pixels, '
        'with an independent projection of the faces, and the screenshot.')
ASSUMPTIONS = ['The scene handed to VTK is what is judged, and the pixels for a part of the cases; the real event loop and mouse are not run.',
               'Coordinates are compared in single precision, which VTK points have.']
REQUIRED = ('ran', 'scene', 'surface', 'normals', 'box', 'plane', 'planes', 'restored', 'saved', 'closed', 'afterwards', 'points', 'lines', 'arrows', 'colours', 'command-line', 'cells',
            'on-off')
N = {'quick': 120, 'thorough': 1000}
PICTURES = {'quick': 16, 'thorough': 160}


class User(object):
    """What is done in the event loop: filled by the case."""
    play = None
    real = False
    log = []
    error = None


def preload():
    os.environ.pop('DISPLAY', None)
    os.environ['MESA_SHADER_CACHE_DISABLE'] = 'true'
    import importlib
    import vtk
    vtk.vtkObject.GlobalWarningDisplayOff()
    bw, br, bi = vtk.vtkRenderWindow, vtk.vtkRenderer, vtk.vtkRenderWindowInteractor

    class Window(bw):
        def Render(self):
            User.log.append('render')
            if User.real:
                super().Render()

        def Finalize(self):
            User.log.append('finalize')
            if User.real:
                super().Finalize()

    class Renderer(br):
        def Render(self):
            if User.real:
                super().Render()

    class Interactor(bi):
        def Initialize(self):
            pass

        def Render(self):
            if User.real:
                super().Render()

        def Start(self):
            User.log.append('start')
            play, User.play = User.play, None
            try:
                if play is not None:
                    play(self)
            except Exception as exc:                    # VTK may swallow it
                User.error = exc
                raise

        def TerminateApp(self):
            User.log.append('terminate')

    mods = [vtk]
    for n in ('vtkmodules.all', 'vtkmodules.vtkRenderingCore'):
        try:
            mods.append(importlib.import_module(n))
        except ImportError:
            pass
    for m in mods:
        m.vtkRenderWindow, m.vtkRenderer, m.vtkRenderWindowInteractor = Window, Renderer, Interactor
    from meshmagick import MMviewer
    importlib.reload(MMviewer)                           # in case it took the names when first imported
    from meshmagick import cli as c  # noqa
    from meshmagick import hydrostatics_old  # noqa


def cases(tier, seed):
    n = N[tier]
    return ([('mesh', k, {}) for k in range(n)] + [('hydro', k, {}) for k in range(n)] + [('api', k, {}) for k in range(n)] + [('line', k, {}) for k in range(n // 2)] +
            [('picture', k, {}) for k in range(PICTURES[tier])])


def run(ctx):
    User.play, User.real, User.log, User.error = None, False, [], None
    return globals()['k_' + ctx.kind](ctx)


# --- the scene -------------------------------------------------------------------------------------------------------
class Item(object):
    """One visible actor: points, vertices, lines and polygons as they are drawn."""
    def __init__(self, actor):
        from vtk.util.numpy_support import vtk_to_numpy
        m = actor.GetMapper()
        m.Update()
        pd = m.GetInput()
        n = pd.GetNumberOfPoints()
        P = vtk_to_numpy(pd.GetPoints().GetData()).astype(float) if n else np.zeros((0, 3))
        M = np.array([actor.GetMatrix().GetElement(i, j) for i in range(4) for j in range(4)]).reshape(4, 4)
        self.P = P @ M[:3, :3].T + M[:3, 3]
        self.verts, self.lines, self.polys = [cellarray(c()) for c in (pd.GetVerts, pd.GetLines, pd.GetPolys)]
        strips = cellarray(pd.GetStrips())
        self.strips = len(strips)
        p = actor.GetProperty()
        self.color, self.rep, self.edges = tuple(p.GetColor()), p.GetRepresentation(), p.GetEdgeVisibility()
        self.opacity = p.GetOpacity()

    def faces(self):
        """Polygons as rows of four."""
        out = []
        for c in self.polys:
            if len(c) not in (3, 4):
                return None
            out.append(list(c) + [c[0]] if len(c) == 3 else list(c))
        return np.array(out, dtype=int).reshape(-1, 4)


def cellarray(c):
    from vtk.util.numpy_support import vtk_to_numpy
    if c is None or c.GetNumberOfCells() == 0:
        return []
    o = vtk_to_numpy(c.GetOffsetsArray())
    k = vtk_to_numpy(c.GetConnectivityArray())
    return [tuple(int(i) for i in k[a:b]) for a, b in zip(o[:-1], o[1:])]


def main_renderer(it):
    """The renderer of the view: that of the largest viewport (the other one holds the small axes)."""
    rs = it.GetRenderWindow().GetRenderers()
    return max((rs.GetItemAsObject(i) for i in range(rs.GetNumberOfItems())), key=lambda r: (r.GetViewport()[2] - r.GetViewport()[0]) * (r.GetViewport()[3] - r.GetViewport()[1]))


def actors(r):
    c = r.GetActors()
    return [a for a in (c.GetItemAsObject(i) for i in range(c.GetNumberOfItems())) if a.GetVisibility()]


def props(r):
    c = r.GetViewProps()
    return [a for a in (c.GetItemAsObject(i) for i in range(c.GetNumberOfItems())) if a.GetVisibility()]


def same_faces(ctx, oracle, V, F, item, what):
    s = geom.size(V)
    G = item.faces()
    if not ctx.check(oracle, G is not None and item.strips == 0, what + ': polygons of other than three or four vertices'):
        return
    tol = 3e-7 * s
    ctx.check(oracle, len(G) == len(F), '%s: %d faces shown, %d in the mesh' % (what, len(G), len(F)))
    a, b, c = geom.match_faces(V, F, item.P, G, tol)
    ctx.check(oracle, not a and not b and not c, '%s: %d faces not shown, %d others shown, %d turned over' % (what, len(a), len(b), len(c)))


def key(it, k, up=True):
    """A user presses a key."""
    it.SetKeySym(k)
    it.SetKeyCode(k if len(k) == 1 else chr(0))
    it.InvokeEvent('KeyPressEvent')


def arrows_on(ctx, item, C, D, radius, oracle, what, tol):
    """The polygons of item are arrows from the points C to C + D."""
    from scipy.spatial import cKDTree
    n = len(C)
    if not ctx.check(oracle, n > 0 and len(item.polys) > 0 and len(item.polys) % n == 0, '%s: %d polygons for %d arrows' % (what, len(item.polys), n)):
        return
    P = item.P
    d = cKDTree(P).query(C + D)[0]
    ctx.check(oracle, d.max() <= tol, '%s: no arrow ends at %r (nearest at %g)' % (what, (C + D)[d.argmax()], d.max()))
    L = np.linalg.norm(D, axis=1)
    best = np.full(len(P), np.inf)
    for c, v, l in zip(C, D, L):
        x = (P - c) @ (v / l)
        r = np.linalg.norm(P - c - np.outer(x, v / l), axis=1)
        out = np.maximum(np.maximum(-x, x - l), r - radius * l)
        np.minimum(best, out, out=best)
    ctx.check(oracle, best.max() <= tol, '%s: something at %g from the arrows' % (what, best.max()))
    # every arrow is there whole: it starts at its point
    tree = cKDTree(P)
    near = tree.query_ball_point(C, (radius * L.max() + tol))
    ctx.check(oracle, all(len(k) > 0 for k in near), what + ': an arrow does not start at its point')


def box_of(V, F):
    u = np.unique(F)
    return V[u].min(axis=0), V[u].max(axis=0)


class Session(object):
    """The scene while keys are pressed."""
    def __init__(self, ctx, V, F, it, what, more=()):
        self.ctx, self.V, self.F, self.it, self.what, self.more = ctx, V, F, it, what, list(more)
        self.r = main_renderer(it)
        self.base = props(self.r)
        self.on = {}                                     # key -> props it added
        self.lo, self.hi = V.min(axis=0), V.max(axis=0)

    def press(self, k):
        ctx, r = self.ctx, self.r
        before = props(r)
        key(self.it, k)
        after = props(r)
        ctx.saw('key ' + k)
        what = '%s, key %s after %s' % (self.what, k, ''.join(sorted(self.on)) or 'nothing')
        ids = [id_(p) for p in before]
        new = [p for p in after if id_(p) not in ids]
        if k in 'nbhg':
            if k in self.on:
                want = [p for p in before if id_(p) not in [id_(q) for q in self.on[k]]]
                del self.on[k]
                ctx.check('restored', [id_(p) for p in after] == [id_(p) for p in want], '%s: %d things in the scene, %d expected' % (what, len(after), len(want)))
            else:
                ctx.check('restored', [id_(p) for p in after if p not in new] == ids and new, what + ': nothing is added, or something is removed')
                self.on[k] = new
                getattr(self, 'key_' + k)(new, what)
        else:
            ctx.check('restored', [id_(p) for p in after] == ids, what + ': the scene changes')

    def tol(self):
        return 1e-6 * geom.size(self.V)

    def key_n(self, new, what):
        its = [Item(a) for a in new if hasattr(a, 'GetMapper')]
        its = [i for i in its if i.polys]
        if not self.ctx.check('normals', len(its) == 1 + len(self.more), '%s: %d actors with arrows for %d meshes' % (what, len(its), 1 + len(self.more))):
            return
        for i, (V, F) in zip(its, [(self.V, self.F)] + self.more):
            self.normals(i, V, F, what)

    def normals(self, item, V, F, what):
        A = geom.face_area_vec(V, F)
        a = np.linalg.norm(A, axis=1)
        if (a < 1e-9 * geom.extent(V) ** 2).any():
            return self.ctx.saw('not judged: normals of tiny faces')
        C = np.array([V[list(c)].mean(axis=0) for c in geom.cycles(F)])
        self.ctx.distinct('n', V, F)
        tol = 1e-6 * geom.size(V)
        arrows_on(self.ctx, item, C, A / a[:, None], .2, 'normals', what, min(.05, 3e-4 + tol * (1 + 2 / np.sqrt(a.min()))) + tol)

    def key_b(self, new, what):
        lo, hi = self.lo, self.hi
        b = [np.array(p.GetBounds()) for p in new if p.GetBounds() is not None]
        got = [bounds(p) for p in new]
        self.ctx.check('box', any(g is not None and np.abs(np.array(g).reshape(3, 2).T - [lo, hi]).max() <= self.tol() for g in got), '%s: bounds %r, the mesh %r' % (what, got, (lo, hi)), data=b)

    def covers(self, P, axes):
        e = 1e-6 * (self.hi - self.lo)
        return all(P[:, i].min() <= self.lo[i] + e[i] and P[:, i].max() >= self.hi[i] - e[i] and P[:, i].min() >= 2 * self.lo[i] - self.hi[i] - self.tol() and
                   P[:, i].max() <= 2 * self.hi[i] - self.lo[i] + self.tol() for i in axes)

    def key_h(self, new, what):
        its = [Item(a) for a in new]
        P = np.concatenate([i.P for i in its])
        self.ctx.check('plane', np.abs(P[:, 2]).max() == 0 and self.covers(P, (0, 1)) and sum(len(i.polys) for i in its) > 0, '%s: %r is not the plane z = 0 about the mesh' % (what, P))

    def key_g(self, new, what):
        its = [Item(a) for a in new]
        if min(self.hi - self.lo) <= 1e-9 * geom.size(self.V):
            return self.ctx.saw('not judged: planes of a flat mesh')
        if not self.ctx.check('planes', all(len(i.P) for i in its), '%s: an empty plane: %r' % (what, (self.lo, self.hi))):
            return
        flat = [i for ax in range(3) for i in its if np.abs(i.P[:, ax]).max() == 0 and self.covers(i.P, [k for k in range(3) if k != ax]) and i.polys]
        for ax in range(3):
            self.ctx.check('planes', any(np.abs(i.P[:, ax]).max() == 0 and self.covers(i.P, [k for k in range(3) if k != ax]) for i in flat),
                           '%s: no plane %s = 0 about the mesh' % (what, 'xyz'[ax]))
        self.ctx.check('planes', len(its) == 3, what + ': %d planes' % len(its))

    def save(self, V=None, F=None):
        ctx = self.ctx
        name = 'mmviewer_save.vtp'
        with contextlib.suppress(FileNotFoundError):
            os.remove(name)
        if ctx.rng.random() < .3:
            open(name, 'w').write('something former')
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            self.press('x')
        if ctx.check('saved', os.path.isfile(name), self.what + ': key x writes no ' + name):
            import vtk
            rd = vtk.vtkXMLPolyDataReader()
            rd.SetFileName(name)
            rd.Update()
            it = Item.__new__(Item)
            pd = rd.GetOutput()
            from vtk.util.numpy_support import vtk_to_numpy
            it.P = vtk_to_numpy(pd.GetPoints().GetData()).astype(float) if pd.GetNumberOfPoints() else np.zeros((0, 3))
            it.polys, it.strips = cellarray(pd.GetPolys()), pd.GetNumberOfStrips()
            ctx.check('saved', pd.GetNumberOfVerts() == 0 and pd.GetNumberOfLines() == 0, self.what + ': what is saved is not the main object')
            same_faces(ctx, 'saved', self.V, self.F, it, self.what + ', saved')
            ctx.check('saved', os.getcwd() in out.getvalue() and name in out.getvalue(), self.what + ': the file written is not told: %r' % out.getvalue())

    def leave(self):
        k = str(self.ctx.rng.choice(['q', 'e', 'close']))
        if k != 'close':
            User.log.clear()
            with contextlib.redirect_stdout(io.StringIO()):
                key(self.it, k)
            self.ctx.check('closed', 'terminate' in User.log and 'finalize' in User.log, '%s: key %s does not close the window (%r)' % (self.what, k, User.log))

    def play(self, n):
        rng = self.ctx.rng
        for _ in range(n):
            k = str(rng.choice(list('nnbbhhgg') + ['x', 'u', 'Up', 'z', 'r', 'w', 's', 'f']))
            if k == 'x':
                self.save()
            else:
                self.press(k)


def id_(p):
    return p.GetAddressAsString('') if hasattr(p, 'GetAddressAsString') else repr(p)


def bounds(p):
    """The bounds of the axes box."""
    with contextlib.suppress(Exception):
        b = p.GetBounds()
        if b is not None:
            return tuple(b)
    with contextlib.suppress(Exception):
        b = [0.] * 6
        p.GetBounds(b)
        return tuple(b)
    return None


def some_mesh(rng, far=True):
    k = int(rng.integers(5))
    if k == 0:
        V, F = gens.soup(rng, int(rng.integers(1, 9)), float(rng.random()))
        d = 'soup'
    else:
        V, F, d = gens.solid(rng)
        if k == 1:
            V, F = gens.open_part(V, F, rng)
    if rng.random() < .3:                                # faces turned over
        k = rng.random(len(F)) < .4
        F = np.array([([f[0], f[3], f[2], f[1]] if f[0] != f[3] else [f[0], f[2], f[1], f[0]]) if t else list(f) for f, t in zip(F, k)])
    V = V * (10. ** (rng.uniform(-1, 2) if rng.random() < .7 else rng.uniform(-7, 4)) / geom.extent(V))
    if far and rng.random() < .2:
        V = V + rng.normal(size=3) * 10 * geom.extent(V)
    return V, F, d


def show(ctx, f, play, what):
    """Runs something that opens the viewer; the event loop must have run once."""
    User.play, User.log, User.error = play, [], None
    log = []

    def play1(it):
        log.append('start')
        play(it)
    User.play = play1
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        res = f()
    if User.error is not None:
        raise User.error
    ctx.check('ran', len(log) == 1, '%s: the event loop ran %d times' % (what, len(log)))
    return res


def check_mesh_scene(ctx, it, V, F, what):
    """Nothing but the mesh."""
    r = main_renderer(it)
    its = [Item(a) for a in actors(r)]
    if ctx.check('scene', len(its) == 1 and not its[0].verts and not its[0].lines, '%s: %d actors in the window' % (what, len(its))):
        same_faces(ctx, 'surface', V, F, its[0], what)
        u = np.unique(F)
        ctx.check('scene', its[0].rep == 2 and its[0].opacity == 1, what + ': not shown as a surface')
        ctx.check('cells', len(its[0].P) == len(V) and np.abs(its[0].P - V).max() <= 3e-7 * geom.size(V), what + ': other points than the vertices of the mesh', u=u)


def k_mesh(ctx):
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    V, F, d = some_mesh(rng)
    m = Mesh(V, F)
    n = int(rng.integers(0, 13))

    def play(it):
        check_mesh_scene(ctx, it, V, F, d)
        s = Session(ctx, V, F, it, d)
        s.play(n)
        s.leave()

    for turn in range(int(rng.integers(1, 3))):
        show(ctx, m.show, play, d)
        ctx.check('afterwards', np.array_equal(np.array(m.vertices), V) and np.array_equal(np.array(m.faces), F), d + ': the mesh shown has changed')
        try:
            c = m.copy()
            ok = np.array_equal(np.array(c.vertices), V) and np.array_equal(np.array(c.faces), F)
            c.translate([1., 2., 3.])
            ok = ok and np.array_equal(np.array(m.vertices), V)
        except Exception as exc:
            ok = repr(exc)
        ctx.check('afterwards', ok is True, '%s: the mesh shown cannot be copied: %r' % (d, ok))
        k = int(rng.integers(4))
        if k == 0:                                       # moved and shown again
            t = rng.normal(size=3) * geom.extent(V)
            m.translate(t)
            V = np.array(m.vertices)
        elif k == 1:
            m.rotate(rng.uniform(-1, 1, 3))
            V = np.array(m.vertices)
        elif k == 2:
            m.flip_normals()
            F = np.array(m.faces)
    ctx.distinct('mesh', V, F)


def k_hydro(ctx):
    from meshmagick.mesh import Mesh
    from meshmagick.hydrostatics_old import Hydrostatics, Force
    rng = ctx.rng
    V, F, d = c19.ship(rng, True)
    total = geom.volume_moments(V, F)[0]
    V = V + [0, 0, c19.solve(V, F, total * float(rng.uniform(.25, .6)))]
    if rng.random() < .3:
        V = V + np.append(rng.uniform(-3, 3, 2), 0)
    if (np.abs(V[:, 2]) < 4e-3).any():
        return ctx.saw('not judged: snapped')
    s = geom.size(V)
    hs = geom.hydro(V, F)
    cog = V.mean(axis=0) + rng.normal(size=3) * .05 * np.ptp(V, axis=0)
    rho = float(rng.choice([1023., 1000., 1025.]))
    H = None
    m = Mesh(V, F)
    with contextlib.redirect_stdout(io.StringIO()):
        H = Hydrostatics(m, cog=cog.copy(), rho_water=rho)
    mass = float(rho * hs['volume'] / 1000. * rng.uniform(.5, 1.3)) if rng.random() < .5 else None
    if mass is not None and mass < .98 * rho * total / 1000.:
        H.mass = mass
    forces = []
    for _ in range(int(rng.integers(0, 4))):
        p, v = V.mean(axis=0) + rng.normal(size=3), rng.normal(size=3) * H.mass * 1000 * 10. ** rng.uniform(-2, 1)
        f = Force(point=p.copy(), value=v.copy(), mode=str(rng.choice(['relative', 'absolute'])))
        H.add_force(f)
        forces.append((p, v))
    data = dict((k, np.array(v, dtype=float)) for k, v in H.hs_data.items() if k in c26.KEYS)
    n = int(rng.integers(0, 7))
    B = np.array(hs['B']) if 'B' in hs else np.array(H.buoyancy_center)

    def play(it):
        r = main_renderer(it)
        its = [Item(a) for a in actors(r)]
        surf = [i for i in its if i.edges and i.polys]
        rest = [i for i in its if i not in surf]
        if ctx.check('scene', len(surf) == 1, '%s: %d meshes in the window' % (d, len(surf))):
            same_faces(ctx, 'surface', V, F, surf[0], d)
        tol = 1e-6 * s
        # points
        pts = [(tuple(np.round(i.color, 6)), i.P[c[0]]) for i in rest for c in i.verts]
        want = [('black', (0, 0, 0), np.zeros(3)), ('red', (1, 0, 0), cog), ('green', (0, 1, 0), B)] + [('blue', (0, 0, 1), p) for p, v in forces]
        ctx.check('points', len(pts) == len(want), '%s: %d points shown, %d expected' % (d, len(pts), len(want)))
        for name, c, p in want:
            near = [q for q in pts if np.abs(q[1] - p).max() <= tol]
            if ctx.check('points', len(near) >= 1, '%s: no point at %r' % (d, p)):
                ctx.check('colours', any(q[0] == c for q in near), '%s: the point at %r is not %s' % (d, p, name))
        # lines
        lines = [(i.color, i.P[list(c)]) for i in rest for c in i.lines]
        for c, p in (((1, 0, 0), cog), ((0, 1, 0), B)):
            ctx.check('lines', any(len(q) == 2 and min(np.abs(q - [np.zeros(3), p]).max(), np.abs(q[::-1] - [np.zeros(3), p]).max()) <= tol and tuple(k) == c for k, q in lines),
                      '%s: no line from the origin to %r' % (d, p))
        ctx.check('lines', len(lines) == 2, '%s: %d lines' % (d, len(lines)))
        # arrows: one scale for all
        ar = [i for i in rest if i.polys]
        ctx.check('arrows', len(ar) == 2 + len(forces), '%s: %d arrows' % (d, len(ar)))
        W = H.mass * 1000 * H.gravity
        all_ = [((1, 0, 0), cog, np.array([0, 0, -W])), ((0, 1, 0), B, np.array([0, 0, rho * H.gravity * hs['volume']]))] + [((0, 0, 1), p, v) for p, v in forces]
        red = [i for i in ar if i.color == (1, 0, 0)]
        if ctx.check('arrows', len(red) == 1, d + ': the weight is not shown'):
            scale = W / max(1e-300, cog[2] - red[0].P[:, 2].min())
            for (c, p, v), i in zip(all_, ar):
                ctx.check('colours', i.color == c, '%s: colour %r of an arrow' % (d, i.color))
                arrows_on(ctx, i, p[None], v[None] / scale, .05, 'arrows', '%s, force %r' % (d, v), 1e-5 * np.linalg.norm(v) / scale + 3 * tol)
            # readable: neither a dot nor out of sight
            ctx.check('arrows', np.isfinite(scale) and scale > 0, d + ': the weight does not point down')
        S = Session(ctx, V, F, it, d)
        S.play(n)
        S.leave()

    for turn in range(int(rng.integers(1, 3))):
        show(ctx, H.show, play, d)
        ok = np.array_equal(np.array(H.mesh.vertices), V) and np.array_equal(np.array(H.mesh.faces), F) and np.array_equal(np.array(H.gravity_center), cog)
        ok = ok and all(np.array_equal(np.array(H.hs_data[k], dtype=float), v, equal_nan=True) for k, v in data.items())
        ok = ok and all(np.array_equal(f.point, p) and np.array_equal(f.value, v) for f, (p, v) in zip(H.additional_forces, forces)) and len(H.additional_forces) == len(forces)
        ctx.check('afterwards', ok, d + ': showing it changes the state')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            H.reset()
        ok = True
    except Exception as exc:
        ok = repr(exc)
    ctx.check('afterwards', ok is True, '%s: cannot be used after it is shown: %s' % (d, ok))
    ctx.distinct('hydro', V, F, cog)


def k_api(ctx):
    """The viewer used directly."""
    from meshmagick import MMviewer
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    V, F, d = some_mesh(rng, far=False)
    s = geom.size(V)
    tol = 1e-6 * s
    v = MMviewer.MMViewer()
    rep = str(rng.choice(['surface', 'wireframe', 'default']))
    col = tuple(np.round(rng.random(3), 3)) if rng.random() < .5 else None
    kw = {} if rep == 'default' else {'representation': rep}
    if col is not None:
        kw['color'] = col
    v.add_polydata(Mesh(V, F)._vtk_polydata(), **kw)
    ctx.check('scene', len(v.polydatas) == 1, 'polydatas')
    added = []
    for _ in range(int(rng.integers(0, 5))):
        k = int(rng.integers(4))
        p, q = rng.normal(size=3) * s, rng.normal(size=3) * s
        c = tuple(np.round(rng.random(3), 3)) if rng.random() < .7 else None
        kc = {} if c is None else {'color': c}
        form = [list, tuple, np.array][int(rng.integers(3))]
        if k == 0:
            v.add_point(form(p), **kc)
            added.append(('point', c or (0, 0, 0), p, None))
        elif k == 1:
            v.add_line(form(p), form(q), **kc)
            added.append(('line', c or (0, 0, 0), p, q))
        elif k == 2:
            V2, F2, _ = some_mesh(rng, far=False)
            v.add_polydata(Mesh(V2, F2)._vtk_polydata(), **kc)
            added.append(('mesh', c or (1, 1, 0), V2, F2))
        else:
            sc = 10. ** rng.uniform(-3, 3) if rng.random() < .7 else None
            v.add_vector(form(p), q * (sc or 1), **dict(kc, **({} if sc is None else {'scale': sc})))
            added.append(('vector', c or (0, 0, 0), p, q))
    if rng.random() < .3:
        for bad in (lambda: v.add_point([1., 2.]), lambda: v.add_line([0, 0, 0], [1, 2]), lambda: v.add_polydata('mesh'), lambda: v.add_polydata(Mesh(V, F)._vtk_polydata(), representation='dots')):
            try:
                bad()
                ok = False
            except Exception:
                ok = True
            ctx.check('scene', ok, 'a wrong argument is accepted')
    n = int(rng.integers(0, 7))

    def play(it):
        r = main_renderer(it)
        its = [Item(a) for a in actors(r)]
        if not ctx.check('scene', len(its) == 1 + len(added), '%s: %d things in the window, %d expected' % (d, len(its), 1 + len(added))):
            return
        same_faces(ctx, 'surface', V, F, its[0], d)
        ctx.check('scene', its[0].rep == (1 if rep == 'wireframe' else 2), '%s: representation %s' % (d, rep))
        ctx.check('colours', np.allclose(its[0].color, col or (1, 1, 0), atol=1e-6), '%s: colour %r' % (d, its[0].color))
        for i, (k, c, p, q) in zip(its[1:], added):
            ctx.check('colours', np.allclose(i.color, c, atol=1e-6), '%s: colour %r of a %s' % (d, i.color, k))
            if k == 'point':
                ctx.check('points', len(i.verts) == 1 and not i.lines and not i.polys and np.abs(i.P[i.verts[0][0]] - p).max() <= 3 * tol, '%s: not the point %r' % (d, p))
            elif k == 'mesh':
                same_faces(ctx, 'surface', p, q, i, d + ', another mesh')
            elif k == 'line':
                ctx.check('lines', len(i.lines) == 1 and len(i.lines[0]) == 2 and not i.verts and not i.polys and np.abs(i.P[list(i.lines[0])] - [p, q]).max() <= 3 * tol, '%s: not the line' % d)
            else:
                arrows_on(ctx, i, p[None], q[None], .05, 'arrows', d, 5 * tol)
        S = Session(ctx, V, F, it, d, [a[2:] for a in added if a[0] == 'mesh'])
        # normals by methods and by keys
        if rng.random() < .5:
            base = [id_(p) for p in props(r)]
            state = False
            for _ in range(int(rng.integers(1, 6))):
                k = str(rng.choice(['on', 'off', 'key']))
                before = props(r)
                if k == 'on':
                    v.normals_on()
                    state = True
                elif k == 'off':
                    v.normals_off()
                    state = False
                else:
                    with contextlib.redirect_stdout(io.StringIO()):
                        key(it, 'n')
                    state = not state
                now = props(r)
                new = [p for p in now if id_(p) not in base]
                ctx.check('on-off', bool(new) == state and [id_(p) for p in now[:len(base)]] == base, '%s: normals %s gives %d actors more' % (d, k, len(new)), data=len(before))
                if state:
                    S.key_n(new, d + ', normals ' + k)
            v.normals_off()
            ctx.check('on-off', [id_(p) for p in props(r)] == base, d + ': normals off')
        S.play(n)
        S.leave()

    show(ctx, v.show, play, d)
    v.finalize()
    ctx.distinct('api', V, F, len(added))


def k_line(ctx):
    """--show shows the mesh of the end of the line."""
    rng = ctx.rng
    V, F = small_mesh(rng)
    name, fmt, V, F = put(V, F, rng)[:4] if False else _put(V, F, rng)
    t = np.round(rng.uniform(-5, 5, 3), 3)
    opts = [nm(rng, '-t', '--translate')] + ['%.3f' % x for x in t] if rng.random() < .6 else []
    if not opts:
        t = np.zeros(3)
    flip = rng.random() < .3
    if flip:
        opts = opts + [nm(rng, '-fn', '--flip-normals')]
    W = V + t
    G = F[:, ::-1].copy() if flip else F
    if flip:
        G = np.array([[f[0], f[3], f[2], f[1]] if f[0] != f[3] else [f[0], f[2], f[1], f[0]] for f in F])
    o = []
    if rng.random() < .5:
        o = ['-o', 'out.nem']
    sh = [str(rng.choice(['-sh', '--show']))]
    args = [name] + (sh + opts if rng.random() < .5 else opts + sh) + o
    before = open(name, 'rb').read()
    seen = []

    def play(it):
        seen.append(1)
        r = main_renderer(it)
        its = [Item(a) for a in actors(r)]
        if ctx.check('command-line', len(its) == 1, '%r: %d things shown' % (args, len(its))):
            same_faces(ctx, 'command-line', W, G, its[0], repr(args))
        S = Session(ctx, W, G, it, repr(args))
        S.play(int(rng.integers(0, 4)))
        S.leave()

    User.play = play
    err, out = cli(args)
    if User.error is not None:
        raise User.error
    ctx.check('command-line', err is None and len(seen) == 1, '%r: %r, shown %d times' % (args, err, len(seen)))
    ctx.check('command-line', open(name, 'rb').read() == before, '%r: the input file has changed' % (args,))
    if o:
        ok = os.path.isfile('out.nem')
        if ctx.check('command-line', ok, '%r: nothing is written after the window is closed' % (args,)):
            X, Y = load('out.nem', 'nem')
            a, b, c = geom.match_faces(W, G, X, Y, 1e-4)
            ctx.check('command-line', not a and not b and not c, '%r: another mesh is written than the one shown' % (args,))
    ctx.distinct('line', V, F, tuple(args))


def _put(V, F, rng):
    fmt = str(rng.choice(['mar', 'nem', 'nat', 'tec']))
    from mon.checks import c21
    name = 'in.' + fmt
    c21.WRITERS[fmt](name, V, F, rng)
    W, G = load(name, fmt)
    return name, fmt, W, G


# --- real pictures ---------------------------------------------------------------------------------------------------
def image(win):
    import vtk
    from vtk.util.numpy_support import vtk_to_numpy
    f = vtk.vtkWindowToImageFilter()
    f.SetInput(win)
    f.ReadFrontBufferOff()
    f.Update()
    o = f.GetOutput()
    w, h, _ = o.GetDimensions()
    return vtk_to_numpy(o.GetPointData().GetScalars()).reshape(h, w, -1)[:, :, :3].astype(float)


def project(r, V, w, h):
    cam = r.GetActiveCamera()
    M = cam.GetCompositeProjectionTransformMatrix(w / h, -1, 1)
    M = np.array([M.GetElement(i, j) for i in range(4) for j in range(4)]).reshape(4, 4)
    X = np.column_stack([V, np.ones(len(V))]) @ M.T
    X = X[:, :3] / X[:, 3:]
    return (X[:, :2] + 1) / 2 * [w, h] - .5


def judge_picture(ctx, it, V, F, what):
    win = it.GetRenderWindow()
    r = main_renderer(it)
    win.Render()
    A = image(win)
    h, w = A.shape[:2]
    X = project(r, V, w, h)
    n = 4000
    px = np.column_stack([ctx.rng.integers(2, w - 2, n), ctx.rng.integers(2, h - 2, n)])
    dist = np.full(n, np.inf)
    inside = np.zeros(n, bool)
    for c in geom.cycles(F):
        Q = X[list(c)]
        S = np.zeros(n, bool)
        for a, b in zip(Q, np.roll(Q, -1, axis=0)):
            ab = b - a
            t = np.clip(((px - a) @ ab) / max(ab @ ab, 1e-12), 0, 1)
            np.minimum(dist, np.linalg.norm(px - a - t[:, None] * ab, axis=1), out=dist)
        for T in ([0, 1, 2],) if len(c) == 3 else ([0, 1, 2], [0, 2, 3]):
            a, b, e = Q[T]
            det = (b[0] - a[0]) * (e[1] - a[1]) - (b[1] - a[1]) * (e[0] - a[0])
            if abs(det) < 1e-9:
                continue
            u = ((px[:, 0] - a[0]) * (e[1] - a[1]) - (px[:, 1] - a[1]) * (e[0] - a[0])) / det
            q = ((b[0] - a[0]) * (px[:, 1] - a[1]) - (b[1] - a[1]) * (px[:, 0] - a[0])) / det
            S |= (u >= 0) & (q >= 0) & (u + q <= 1)
        inside |= S
    clean = dist > 4
    widget = (px[:, 0] < .3 * w) & (px[:, 1] < .3 * h)
    C = A[px[:, 1], px[:, 0]]
    bg = np.round(np.array([0.7706, 0.8165, 1.0]) * 255)
    i = inside & clean & ~widget
    o = ~inside & clean & ~widget
    yellow = (C[:, 2] <= 12) & (np.abs(C[:, 0] - C[:, 1]) <= 12)
    k = C @ bg / (bg @ bg)
    back = np.abs(C - k[:, None] * bg).max(axis=1) <= 6
    ctx.saw('pixels inside %d00+' % (i.sum() // 100), 'pictures')
    if i.sum() >= 20:
        ctx.check('picture', (yellow[i]).mean() >= .99, '%s: %d of %d pixels inside the faces are not of the mesh' % (what, (~yellow[i]).sum(), i.sum()), colours=C[i & ~yellow][:10], at=px[i & ~yellow][:10])
    if o.sum() >= 20:
        ctx.check('picture', (back[o]).mean() >= .99, '%s: %d of %d pixels outside the faces are not of the background' % (what, (~back[o]).sum(), o.sum()), colours=C[o & ~back][:10], at=px[o & ~back][:10])
    u = np.unique(F)
    ctx.check('picture', (X[u] > 0).all() and (X[u] < [w, h]).all(), what + ': the mesh is not in the window when it opens') if ctx.state.get('first', True) else None
    ctx.state['first'] = False
    return A


def can_render():
    """Does VTK alone render here?  Tried once, in a process of its own."""
    if 'render' not in CAN:
        pid = os.fork()
        if pid == 0:
            try:
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                import vtk
                w, r = vtk.vtkRenderWindow.__mro__[1](), vtk.vtkRenderer.__mro__[1]()
                w.SetOffScreenRendering(1)
                w.SetSize(40, 30)
                r.SetBackground(1, 0, 0)
                w.AddRenderer(r)
                w.Render()
                os._exit(0 if np.abs(image(w) - [255, 0, 0]).max() <= 1 else 1)
            finally:
                os._exit(1)
        CAN['render'] = os.waitpid(pid, 0)[1] == 0
    return CAN['render']


CAN = {}


def k_picture(ctx):
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    if not can_render():
        return ctx.saw('no software rendering here')
    User.real = True
    while True:
        V, F, d = gens.solid(rng)
        if len(F) <= 120:
            break
    V = V * (10. ** rng.uniform(-1, 2) / geom.extent(V))
    if rng.random() < .3:
        V, F = gens.open_part(V, F, rng)
    V = V[:F.max() + 1] if F.max() + 1 == len(np.unique(F)) else V
    u, F = np.unique(F, return_inverse=True)
    F = F.reshape(-1, 4)
    V = V[u]
    m = Mesh(V, F)

    def play(it):
        judge_picture(ctx, it, V, F, d + ' as it opens')
        r = main_renderer(it)
        cam = r.GetActiveCamera()
        cam.Azimuth(float(rng.uniform(-180, 180)))
        cam.Elevation(float(rng.uniform(-80, 80)))
        r.ResetCamera()
        r.ResetCameraClippingRange()
        A = judge_picture(ctx, it, V, F, d + ' turned')
        # screenshot
        with contextlib.redirect_stdout(io.StringIO()):
            key(it, 'c')
        if ctx.check('screenshot', os.path.isfile('screenshot.png'), d + ': key c writes no screenshot.png'):
            import vtk
            from vtk.util.numpy_support import vtk_to_numpy
            rd = vtk.vtkPNGReader()
            rd.SetFileName('screenshot.png')
            rd.Update()
            o = rd.GetOutput()
            w, h, _ = o.GetDimensions()
            B = vtk_to_numpy(o.GetPointData().GetScalars()).reshape(h, w, -1)[:, :, :3].astype(float)
            ctx.check('screenshot', B.shape == A.shape and (np.abs(B - A).max(axis=2) > 8).mean() < .01, d + ': the screenshot is not the view')
        # keys of the style
        for k, rep in (('w', 1), ('s', 2)):
            it.SetKeySym(k)
            it.SetKeyCode(k)
            it.SetEventInformation(512, 384, 0, 0, k, 0, k)
            it.InvokeEvent('KeyPressEvent')
            it.InvokeEvent('CharEvent')
            its = [Item(a) for a in actors(r)]
            ctx.check('style', all(i.rep == rep for i in its), '%s: key %s gives representation %r' % (d, k, [i.rep for i in its]))
        Session(ctx, V, F, it, d).leave()

    show(ctx, m.show, play, d)
    ctx.check('afterwards', np.array_equal(np.array(m.vertices), V), d + ': the mesh shown has changed')
    ctx.distinct('picture', V, F)
