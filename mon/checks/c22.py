"""C22: files that cannot be read, and files that cannot be written."""
import os
import pickle
import numpy as np
from mon import gens
from mon.checks import c21
from mon.checks.c20 import quiet

PROP = 'C22'
LEVEL = 'exploration'
RULE = ('Files of every readable format written by independent writers, then cut after any line (text) or any byte (binary), or with one '
        'coordinate overwritten by the asterisks of a Fortran overflow or by a word, or replaced by nothing, noise, or a file of another kind; '
        'names of files that do not exist; unknown formats; formats without a writer; destinations that cannot be opened.  The reader '
        'either raises (or the mesh constructor refuses what it returned) or returns the complete mesh; the writer raises and '
        'leaves what was there.')
ASSUMPTIONS = ['Cuts are judged in the formats that announce the number of nodes and panels or close their lists (mar, gdf, nat, msh, tec, med, nem, '
               'pnl, vtu, vtp, ASCII vtk).',
               'A file that is cut inside its last number is not a recognisable damage: text is cut after complete lines.']
REQUIRED = ('cut', 'overflow', 'noise', 'missing', 'unknown', 'unwritable', 'destination', 'overwrite', 'unsupported')

CUT = ('mar', 'gdf', 'nat', 'msh22', 'msh41', 'tec', 'med', 'nem', 'pnl', 'vtu', 'vtp', 'vtk')
OVERFLOW = ('mar', 'gdf', 'nat', 'msh22', 'msh41', 'tec', 'nem', 'pnl', 'diodore-dat')
N = {'quick': 35, 'thorough': 150}
WATCHDOG = 15
STEPS = 100000
EXT = {'msh22': 'msh', 'msh41': 'msh', 'stlb': 'stl', 'diodore-dat': 'DAT'}
UNWRITABLE = ('diodore-inp', 'inp', 'gmsh', 'msh', 'rad', 'radioss', 'med', 'salome', 'vrml', 'wrl')
WRITABLE = ('mar', 'nemoh', 'wamit', 'gdf', 'diodore-dat', 'hydrostar', 'hst', 'natural', 'nat', 'stl', 'vtu', 'vtp', 'paraview-legacy', 'vtk', 'tecplot',
            'tec', 'nem', 'nemoh_mesh', 'pnl', 'hams', 'obj')


def preload():
    import vtk, h5py  # noqa
    vtk.vtkObject.GlobalWarningDisplayOff()


def cases(tier, seed):
    out = []
    i = 0
    for k in range(N[tier]):
        for f in CUT:
            out.append(('cut', i, {'format': f}))
            i += 1
        for f in OVERFLOW:
            out.append(('overflow', i, {'format': f}))
            i += 1
    for k in range(max(1, N[tier] // 7)):
        out += [('noise', 100 * k + j, {'format': f}) for j, f in enumerate(c21.FMTS)]
    out += [('names', k, {}) for k in range(max(2, N[tier] // 7))]
    out += [('unsupported', k, {}) for k in range(N[tier])]
    return out


def refused(f, *a):
    """The exception with which a call refuses its arguments, or None."""
    try:
        return None, quiet(f, *a)
    except Exception as e:
        return e, None


def read(name, alias):
    from meshmagick import mmio
    from meshmagick.mesh import Mesh
    V, F = mmio.load_mesh(name, alias)
    m = Mesh(V, F)
    return m.vertices.copy(), m.faces.copy()


def guarded(ctx, name, alias):
    """read() in a child process: libraries may crash on damaged files."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        import signal
        signal.alarm(30)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        try:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            e, got = refused(read, name, alias)
            b = pickle.dumps((repr(e) if e is not None else None, got))
            with os.fdopen(w, 'wb') as f:
                f.write(b)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    st = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(st) or not b:
        ctx.saw('the library crashed')
        ctx.check('ends', os.WTERMSIG(st) != 14, 'reading %s does not end' % name)
        return 'crash', None
    return pickle.loads(b)


def attempt(ctx, name, alias):
    if name.rsplit('.')[-1] in ('vtu', 'vtp', 'vtk', 'stl', 'obj', 'wrl', 'med'):
        return guarded(ctx, name, alias)
    return refused(read, name, alias)


def original(ctx, fmt):
    rng = ctx.rng
    V, F, d = c21.any_mesh(rng, False)
    V = np.round(V, 4) + 0.
    if len(F) > 120:
        F = F[:120]
        u, F = np.unique(F, return_inverse=True)
        V, F = V[u], F.reshape(-1, 4)
    name = 'm.' + EXT.get(fmt, fmt)
    while True:
        c21.WRITERS[fmt](name, V, F, rng)
        with open(name, 'rb') as f:
            b = f.read()
        if not (fmt == 'vtk' and b'BINARY' in b):
            break
    alias = str(rng.choice(c21.ALIASES.get(fmt, (fmt,))))
    ctx.distinct(fmt, V, F)
    ctx.sample = {'format': fmt, 'mesh': d, 'nv': len(V), 'nf': len(F), 'bytes': len(b)}
    return name, alias, b, quiet(read, name, alias), (V, F)


def judge(ctx, oracle, alias, name, ref, msg):
    e, got = attempt(ctx, name, alias)
    ctx.saw('refused' if e is not None else 'read')
    if e is not None:
        return ctx.check(oracle, True)
    same = got[0].shape == ref[0].shape and got[1].shape == ref[1].shape and np.array_equal(got[0], ref[0]) and np.array_equal(got[1], ref[1])
    return ctx.check(oracle, same, '%s: read without a word as %d vertices and %d panels, the complete file has %d and %d' % (
        msg, len(got[0]), len(got[1]), len(ref[0]), len(ref[1])))


def run(ctx):
    return globals()['k_' + ctx.kind](ctx)


def k_cut(ctx):
    fmt = ctx.params['format']
    rng = ctx.rng
    name, alias, b, ref, _ = original(ctx, fmt)
    text = fmt not in ('med', 'vtu', 'vtp')
    cuts = [i + 1 for i, c in enumerate(b) if c == 10] if text else range(len(b))
    cuts = [c for c in cuts if b[c:].strip()]
    pick = {int(c) for c in rng.choice(cuts, min(len(cuts), 12))} | set(cuts[-3:] if text else [])
    for c in sorted(pick):
        with open(name, 'wb') as f:
            f.write(b[:c])
        judge(ctx, 'cut', alias, name, ref, '%s cut after %d of %d bytes' % (fmt, c, len(b)))


def k_overflow(ctx):
    """One coordinate of the file is not a number."""
    fmt = ctx.params['format']
    rng = ctx.rng
    name, alias, b, ref, (V, F) = original(ctx, fmt)
    lines = b.decode().split('\n')
    # the lines of coordinates: those with a decimal point inside the node block
    def coords(l):
        return [k for k, t in enumerate(l.split()) if '.' in t and not any(c.isalpha() and c not in 'eE' for c in t)]
    if fmt == 'gdf':
        cand = [i for i, l in enumerate(lines) if i >= 4 and coords(l)]
    elif fmt.startswith('msh'):
        a, z = lines.index('$Nodes') + 2, lines.index('$EndNodes')
        cand = [i for i in range(a, z) if len(coords(lines[i])) == 3]
    elif fmt == 'diodore-dat':
        cand = [i for i, l in enumerate(lines) if len(l.split()) == 4 and len(coords(l)) == 3]
    elif fmt == 'tec':
        a = max(i for i, l in enumerate(lines) if 'QUADRILATERAL' in l) + 1
        cand = list(range(a, a + len(V)))
    else:
        cand = [i for i, l in enumerate(lines) if i and len(coords(l)) >= 3]
    if not cand:
        return ctx.saw('no coordinate with a decimal point')
    for _ in range(4):
        i = int(rng.choice(cand))
        t = lines[i].split()
        c = coords(lines[i])[:3] if fmt == 'tec' else coords(lines[i])
        if not c:
            continue
        k = int(rng.choice(c))
        bad = str(rng.choice(['*' * len(t[k]), 'abc', '1.5.3', 'byte']))
        if bad == 'byte':                                # a damaged byte within the digits
            j = t[k].index('.') + 1
            bad = t[k][:j] + '\xe9\xa0\x85\xff\x00'[int(rng.integers(5))] + t[k][j + 1:]
            ctx.saw('damaged byte')
        t[k] = bad
        out = list(lines)
        out[i] = '  ' + '  '.join(t)
        with open(name, 'wb') as f:
            f.write('\n'.join(out).encode('latin-1'))
        judge(ctx, 'overflow', alias, name, ref, '%s, line %r' % (fmt, out[i][:80]))


def k_noise(ctx):
    fmt = ctx.params['format']
    rng = ctx.rng
    alias = str(rng.choice(c21.ALIASES.get(fmt, (fmt,))))
    ctx.distinct(fmt, ctx.idx)
    samples = {'nothing': b'', 'newlines': b'\n\n\n\n\n\n', 'noise': bytes(int(i) for i in rng.integers(0, 256, 300)),
               'text': b'This is not a mesh.\nIt tells nothing about panels\nor nodes, %d times.\n' % int(rng.integers(1, 99)),
               'zeros': b'0 0 0 0\n' * 3}
    for k, s in samples.items():
        if fmt == 'wrl' and k == 'noise':
            continue
        name = k + '.' + EXT.get(fmt, fmt)
        with open(name, 'wb') as f:
            f.write(s)
        e, got = attempt(ctx, name, alias)
        ok = e is not None
        ctx.check('noise', ok, '%s: a file with %s is read as a mesh of %s panels' % (fmt, k, len(got[1]) if got else None))
        with open(name, 'rb') as f:
            ctx.check('noise', f.read() == s, '%s: the file was modified' % fmt)


def k_unsupported(ctx):
    """Features of the formats that the readers do not know: refused, or read completely."""
    rng = ctx.rng
    V, F, d = c21.any_mesh(rng, False)
    V = np.round(V, 4) + 0.
    F = F[:60]
    ctx.distinct(V, F)
    k = int(rng.integers(1, len(V)))
    ref = (V, F)
    el = ''.join('%8d' % (i + 1) + ''.join('%8d' % (j + 1) for j in (q[:3] if q[0] == q[3] else q)) + '\n' for i, q in enumerate(F) if q[0] != q[3])
    if not el:
        F = F + 0
        el = ''.join('%8d%8d%8d%8d%8d\n' % (i + 1, 1, 2, 3, min(4, len(V))) for i in range(2))
    rows = ['%8d %13.5E %13.5E %13.5E\n' % ((i + 1,) + tuple(v)) for i, v in enumerate(V)]
    # a Diodore file with the nodes in two sections
    head = '$ NODE\n'
    with open('two.DAT', 'w') as f:
        f.write(head + ''.join(rows[:k]).lstrip() + '*RETURN\n$\n' + head + ''.join(rows[k:]).lstrip() + '*RETURN\n$\n$ ELEMENT,TYPE=Q4C000,ELSTRUCTURE=A\n' + el + '*RETURN\n')
    e, got = refused(read, 'two.DAT', 'diodore-dat')
    ctx.check('unsupported', e is not None or len(got[0]) == len(V), 'diodore-dat: two sections of nodes are read as %s nodes of %d' % (len(got[0]) if got else None, len(V)))
    with open('two.inp', 'w') as f:
        f.write('*FRAME,NAME=FR1\n0.,0.,0.\n\n*NODE,INPUT=two,FRAME=FR1\n*ELEMENT,INPUT=two,TYPE=Q4C000,ELSTRUCTURE=A\n')
    e, got = refused(read, 'two.inp', 'inp')
    ctx.check('unsupported', e is not None or len(got[0]) == len(V), 'inp: two sections of nodes are read as %s nodes of %d' % (len(got[0]) if got else None, len(V)))
    # a frame that does not exist
    c21.w_dat('one.DAT', V, F, rng)
    with open('one.inp', 'w') as f:
        f.write('*FRAME,NAME=FR1\n0.,0.,0.\n\n*NODE,INPUT=%s,FRAME=%s\n*ELEMENT,INPUT=one,TYPE=Q4C000,ELSTRUCTURE=A\n' % (('one', 'FR2') if rng.random() < .5 else ('absent', 'FR1')))
    e, got = refused(read, 'one.inp', 'inp')
    ctx.check('unsupported', e is not None, 'inp: an undefined frame or an absent file is read as something')
    # other versions of gmsh
    w = str(rng.choice(['msh22', 'msh41']))
    c21.WRITERS[w]('v.msh', V, F, rng)
    with open('v.msh') as f:
        s = f.read()
    old = s.split('\n')[1].split()[0]
    new = str(rng.choice(['1.0', '3.0', '3.1', '5.0', '9.9']))
    s = s.replace(old, new, 1)
    with open('v.msh', 'w') as f:
        f.write(s)
    e, got = refused(read, 'v.msh', 'msh')
    ok = e is not None
    if not ok:
        with open('ref.msh', 'w') as f:
            f.write(s.replace(new, old, 1))
        ref = quiet(read, 'ref.msh', 'msh')
        ok = np.array_equal(ref[0], got[0]) and np.array_equal(ref[1], got[1])
    ctx.check('unsupported', ok, 'msh: version %s is read as another mesh' % new)


def k_names(ctx):
    from meshmagick import mmio
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    V, F = gens.soup(rng, int(rng.integers(1, 9)), rng.random())
    ctx.distinct('names', V)
    # what is not there
    for alias in sorted(mmio.extension_dict):
        n = str(rng.choice(['absent', 'no/where', ''])) + str(rng.choice(['', '.' + alias]))
        for f in (lambda: mmio.load_mesh(n, alias), lambda: mmio.extension_dict[alias][0](n)):
            e, _ = refused(f)
            ctx.check('missing', isinstance(e, (IOError, OSError)), '%s: reading %r raises %r' % (alias, n, e))
        ctx.check('missing', not os.listdir('.'), '%s: reading a file that does not exist creates %s' % (alias, os.listdir('.')))
    # unknown formats
    with open('here', 'w') as f:
        f.write('0 0\n')
    for k in ('', 'doc', 'MAR', 'xyz', 'msh ', '.mar', 'STL'):
        e, _ = refused(mmio.load_mesh, 'here', k)
        ctx.check('unknown', isinstance(e, IOError), 'reading the unknown format %r: %r' % (k, e))
        e, _ = refused(mmio.write_mesh, 'there', V, F, k)
        ctx.check('unknown', isinstance(e, IOError), 'writing the unknown format %r: %r' % (k, e))
        e, _ = refused(mmio.write_mesh, 'here', V, F, k)
        ctx.check('unknown', isinstance(e, IOError) and open('here').read() == '0 0\n' and not os.path.exists('there'),
                  'refusing the format %r touches the file' % k)
    # formats without a writer
    for k in UNWRITABLE:
        with open('old.' + k, 'w') as f:
            f.write('precious')
        for n in ('old.' + k, 'new.' + k):
            e, _ = refused(mmio.write_mesh, n, V, F, k)
            ctx.check('unwritable', isinstance(e, NotImplementedError), 'writing %s: %r' % (k, e))
        ctx.check('unwritable', open('old.' + k).read() == 'precious' and not os.path.exists('new.' + k),
                  '%s: a refused write touches the file' % k)
    # destinations
    os.mkdir('d')
    for k in WRITABLE:
        for n in ('none/m.' + k, 'd'):
            e, _ = refused(mmio.write_mesh, n, V, F, k)
            ctx.check('destination', isinstance(e, (IOError, OSError)), '%s: writing to %r raises %r' % (k, n, e))
        # over an existing longer file
        big, Fb = gens.soup(rng, 30, .3)
        n = 'o.' + (k.upper() if k == 'diodore-dat' else k)
        quiet(mmio.write_mesh, n, big, Fb, k)
        s0 = os.path.getsize(n)
        quiet(mmio.write_mesh, n, V, F, k)
        m = Mesh(*quiet(mmio.load_mesh, n, k))
        nf = len(F) if k != 'stl' else sum(1 if q[0] == q[3] else 2 for q in F)
        ctx.check('overwrite', m.nb_faces == nf and os.path.getsize(n) < s0, '%s: %d panels read, %d written over a longer file' % (k, m.nb_faces, nf))
    ctx.check('destination', os.listdir('d') == [], 'files appeared')
    ctx.sample = {'formats': len(mmio.extension_dict)}
