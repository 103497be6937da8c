"""C21: reading files written by other programs."""
import collections
import os
import struct
import numpy as np
from mon import gens, geom
from mon.checks.c20 import quiet, mesh as any_mesh, cyc, FORMATS as WRITABLE

PROP = 'C21'
LEVEL = 'exploration'
RULE = ('Meshes written by independent writers of every readable format, with the liberties the formats allow: free spacing, exponents, '
        'comments, other element types, non contiguous and unordered node labels, several sections, bodies and frames, ASCII and '
        'binary encodings, single and double precision; plus the same ship in the formats the repository ships.  The polygons read '
        'are matched one to one, oriented, with those written.')
ASSUMPTIONS = ['Files follow the layout documented for the format, as far as the reader documents or shows the variant it supports.',
               'Real numbers carry a decimal point in the formats that tell nodes from elements by it (rad, hst, inp, tec).']
FMTS = ('mar', 'gdf', 'diodore-dat', 'inp', 'hst', 'nat', 'msh22', 'msh41', 'rad', 'stl', 'stlb', 'vtu', 'vtp', 'vtk', 'tec', 'med', 'wrl',
        'nem', 'pnl', 'obj')
REQUIRED = tuple('read-' + f for f in FMTS) + ('triangles', 'same-ship', 'names', 'symmetry')
N = {'quick': 200, 'thorough': 400}
ALIASES = {'mar': ('mar', 'nemoh'), 'gdf': ('gdf', 'wamit'), 'inp': ('inp', 'diodore-inp'), 'hst': ('hst', 'hydrostar'), 'nat': ('nat', 'natural'),
           'msh22': ('msh', 'gmsh'), 'msh41': ('msh', 'gmsh'), 'rad': ('rad', 'radioss'), 'stl': ('stl',), 'stlb': ('stl',), 'vtk': ('vtk', 'paraview-legacy'),
           'tec': ('tec', 'tecplot'), 'med': ('med', 'salome'), 'wrl': ('wrl', 'vrml'), 'nem': ('nem', 'nemoh_mesh'), 'pnl': ('pnl', 'hams')}


def preload():
    import vtk, h5py  # noqa


def cases(tier, seed):
    out = [('data', 0, {}), ('names', 0, {})]
    i = 0
    for k in range(N[tier]):
        for f in FMTS:
            out.append(('foreign', i, {'format': f}))
            i += 1
    return out


# --- number formatting --------------------------------------------------------------------------------------------------
def num(x, rng, dot=False):
    k = int(rng.integers(4))
    x = x + 0.
    if k == 0:
        s = '%.10E' % x
    elif k == 1:
        s = '%.9f' % x
    elif k == 2:
        s = repr(float(x))
    else:
        s = '%.12e' % x
    if not s.startswith('-') and rng.random() < .05:
        s = '+' + s
    if dot and '.' not in s:
        m, e, p = s.partition('e')
        s = m + '.0' + e + p
    return s


def sp(rng):
    return str(rng.choice([' ', '  ', '     ', '\t']))


def row(items, rng, lead=None):
    lead = (rng.random() < .5) if lead is None else lead
    return ('  ' if lead else '') + sp(rng).join(items) + '\n'


def nodes(V, rng, dot=False, lead=None, labels=None):
    return ''.join(row(([str(labels[i])] if labels is not None else []) + [num(x, rng, dot) for x in v], rng, lead) for i, v in enumerate(V))


def w_mar(n, V, F, rng):
    with open(n, 'w') as f:
        f.write('%d %d\n' % (2, rng.integers(2)))
        f.write(nodes(V, rng, labels=range(1, len(V) + 1)))
        f.write(rng.choice(['0 0. 0. 0.\n', '  0 0 0 0\n', '     0     0     0     0     0\n']))
        f.write(''.join(row([str(i + 1) for i in q], rng) for q in F))
        f.write('0 0 0 0\n')


def w_gdf(n, V, F, rng):
    with open(n, 'w') as f:
        f.write('a title with 12 numbers 3.5\n')
        f.write('%s %s%s\n' % (num(100., rng), num(9.81, rng), rng.choice(['', '  ULEN GRAV'])))
        f.write('0 0%s\n' % rng.choice(['', '   ISX ISY']))
        f.write('%d%s\n' % (len(F), rng.choice(['', ' NPAN'])))
        per = int(rng.choice([12, 6, 3, 1]))
        for q in F:
            c = [num(x, rng) for x in V[q].ravel()]
            for i in range(0, 12, per):
                f.write(row(c[i:i + per], rng))


def labels_for(n, rng):
    k = int(rng.integers(3))
    if k == 0:
        return list(range(1, n + 1))
    L = np.sort(rng.choice(3 * n + 5, n, replace=False) + 1)
    if k == 2:
        L = rng.permutation(L)
    return [int(i) for i in L]


def tri(q):
    return q[0] == q[3]


def w_dat(n, V, F, rng):
    L = labels_for(len(V), rng)
    with open(n, 'w') as f:
        f.write('$\n$ something\n*NODE\n' if rng.random() < .5 else '$ NODE\n')
        f.write(''.join('%8d %s %s %s\n' % ((L[i],) + tuple('%.8E' % x for x in v)) for i, v in enumerate(V)).lstrip())
        f.write('*RETURN\n')
        blocks = [('T3C000', [q[:3] for q in F if tri(q)]), ('Q4C000', [q for q in F if not tri(q)])]
        if rng.random() < .4:                            # several structures
            blocks = [(t, p) for t, qs in blocks for p in (qs[:len(qs) // 2], qs[len(qs) // 2:])]
        if rng.random() < .5:
            blocks.reverse()
        e = 0
        for t, qs in blocks:
            if not len(qs):
                continue
            f.write('$\n$ ELEMENT,TYPE=%s,ELSTRUCTURE=HULL\n' % t)
            rows = []
            for q in qs:
                e += 1
                rows.append(''.join('%8d' % x for x in [e] + [L[i] for i in q]) + '\n')
            f.write(''.join(rows).lstrip() if rng.random() < .5 else ''.join(rows))
            f.write('*RETURN\n')


def w_hst(n, V, F, rng):
    nb = int(rng.integers(1, 4))
    cutv = [0] + sorted(int(i) for i in rng.integers(1, len(V) + 1, nb - 1)) + [len(V)]
    cutf = [0] + sorted(int(i) for i in rng.integers(1, len(F) + 1, nb - 1)) + [len(F)]
    with open(n, 'w') as f:
        f.write('PROJECT:\nUSERS:   someone\n\nNBODY   1\nRHO   1025.0\nGRAVITY   9.81\n\n')
        for a, b in zip(cutv[:-1], cutv[1:]):
            if b > a:
                f.write('COORDINATES\n' + nodes(V[a:b], rng, True, True, labels=range(a + 1, b + 1)) + 'ENDCOORDINATES\n\n')
        for a, b in zip(cutf[:-1], cutf[1:]):
            if b > a:
                f.write('PANEL TYPE 0\n' + ''.join(row([str(i + 1) for i in q], rng) for q in F[a:b]) + 'ENDPANEL\n\n')
        f.write('ENDFILE\n')


def w_nat(n, V, F, rng):
    with open(n, 'w') as f:
        f.write('0 0\n%d %d\n' % (len(V), len(F)))
        f.write(nodes(V, rng) + ''.join(row([str(i + 1) for i in q], rng) for q in F))


def w_msh22(n, V, F, rng):
    L = labels_for(len(V), rng)
    with open(n, 'w') as f:
        f.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n')
        if rng.random() < .3:
            f.write('$PhysicalNames\n1\n2 1 "hull"\n$EndPhysicalNames\n')
        f.write('$Nodes\n%d\n' % len(V))
        f.write(''.join('%d %s %s %s\n' % ((L[i],) + tuple(num(x, rng) if rng.random() < .9 else '%.16g' % x for x in v)) for i, v in enumerate(V)))
        f.write('$EndNodes\n$Elements\n')
        rows = []
        for i in range(int(rng.integers(0, 4))):
            rows.append('15 2 0 %d %d' % (i + 1, L[i % len(L)]))
            rows.append('1 2 0 %d %d %d' % (i + 1, L[i % len(L)], L[(i + 1) % len(L)]))
        nt = int(rng.integers(1, 4))
        tags = ' '.join(['%d' % nt] + ['%d' % rng.integers(0, 9) for _ in range(nt)])
        body = ['2 %s %d %d %d' % ((tags,) + tuple(L[i] for i in q[:3])) if tri(q) else '3 %s %d %d %d %d' % ((tags,) + tuple(L[i] for i in q)) for q in F]
        if rng.random() < .5:
            body.sort()
        rows += body
        f.write('%d\n' % len(rows) + ''.join('%d %s\n' % (i + 1, r) for i, r in enumerate(rows)))
        f.write('$EndElements\n')


def w_msh41(n, V, F, rng):
    L = labels_for(len(V), rng)
    k = int(rng.integers(1, 4))
    who = np.sort(rng.integers(0, k, len(V))) if rng.random() < .5 else rng.integers(0, k, len(V))
    with open(n, 'w') as f:
        f.write('$MeshFormat\n4.1 0 8\n$EndMeshFormat\n')
        bl = [b for b in range(k) if (who == b).any()]
        f.write('$Nodes\n%d %d %d %d\n' % (len(bl), len(V), min(L), max(L)))
        order = []
        for b in bl:
            ids = np.where(who == b)[0]
            f.write('%d %d 0 %d\n' % (2 if b else 1, b + 1, len(ids)))
            f.write(''.join('%d\n' % L[i] for i in ids))
            f.write(''.join('%s %s %s\n' % tuple(num(x, rng) for x in V[i]) for i in ids))
            order += ids.tolist()
        f.write('$EndNodes\n$Elements\n')
        T = [q for q in F if tri(q)]
        Q = [q for q in F if not tri(q)]
        blocks = []
        if rng.random() < .5:
            blocks.append((1, 7, 1, [[order[0], order[-1]]]))
        for t, qs in ((2, [q[:3] for q in T]), (3, Q)):
            c = int(rng.integers(0, len(qs) + 1))
            blocks += [(2, 10 * t + j, t, x) for j, x in enumerate((qs[:c], qs[c:])) if len(x)]
        if rng.random() < .5:
            blocks.reverse()
        tot = sum(len(b[3]) for b in blocks)
        f.write('%d %d 1 %d\n' % (len(blocks), tot, tot))
        e = 0
        for dim, tag, t, qs in blocks:
            f.write('%d %d %d %d\n' % (dim, tag, t, len(qs)))
            for q in qs:
                e += 1
                f.write('%d %s\n' % (e, ' '.join('%d' % L[i] for i in q)))
        f.write('$EndElements\n')


def w_rad(n, V, F, rng):
    with open(n, 'w') as f:
        f.write('#RADIOSS STARTER\n/BEGIN\ntitle\n/NODE\n')
        f.write(''.join('%10d %19s %19s %19s\n' % ((i + 1,) + tuple(num(x, rng, True) for x in v)) for i, v in enumerate(V)))
        f.write('/SHELL/1\n')
        f.write(''.join('%10d%10d%10d%10d%10d%10d%10d\n' % ((i + 1, 1, 1) + tuple(k + 1 for k in q)) for i, q in enumerate(F)))
        f.write('/END\n')


def tris_of(V, F):
    out = []
    for q in F:
        out.append(V[[q[0], q[1], q[2]]])
        if not tri(q):
            out.append(V[[q[0], q[2], q[3]]])
    return out


def w_stl(n, V, F, rng):
    with open(n, 'w') as f:
        f.write('solid %s\n' % rng.choice(['x', 'a name', '']))
        for t in tris_of(V, F):
            i = '  ' if rng.random() < .5 else '\t'
            f.write('%sfacet normal 0.0 0 1\n%souter loop\n' % (i, i * 2))
            for p in t:
                f.write('%svertex %s %s %s\n' % ((i * 3,) + tuple('%.9e' % x for x in p)))
            f.write('%sendloop\n%sendfacet\n' % (i * 2, i))
        f.write('endsolid x\n')


def w_stlb(n, V, F, rng):
    T = tris_of(V, F)
    with open(n, 'wb') as f:
        f.write(b'binary stl of somebody'.ljust(80))
        f.write(struct.pack('<I', len(T)))
        for t in T:
            f.write(struct.pack('<12fH', 0, 0, 0, *t.ravel(), 0))


def vtk_points(V, rng):
    import vtk
    p = vtk.vtkPoints()
    if rng.random() < .6:
        p.SetDataTypeToDouble()
    for v in V:
        p.InsertNextPoint(*[float(x) for x in v])
    return p


def vtk_cells(F):
    import vtk
    c = vtk.vtkCellArray()
    for q in F:
        ids = q[:3] if tri(q) else q
        c.InsertNextCell(len(ids))
        for i in ids:
            c.InsertCellPoint(int(i))
    return c


def w_vtp(n, V, F, rng):
    import vtk
    d = vtk.vtkPolyData()
    d.SetPoints(vtk_points(V, rng))
    d.SetPolys(vtk_cells(F))
    w = vtk.vtkXMLPolyDataWriter()
    xml(w, n, d, rng)


def xml(w, n, d, rng):
    w.SetFileName(n)
    w.SetInputData(d)
    k = int(rng.integers(3))
    (w.SetDataModeToAscii, w.SetDataModeToBinary, w.SetDataModeToAppended)[k]()
    if rng.random() < .3:
        w.SetCompressorTypeToNone()
    if w.Write() != 1:
        raise AssertionError('the reference writer failed')


def w_vtu(n, V, F, rng):
    import vtk
    d = vtk.vtkUnstructuredGrid()
    d.SetPoints(vtk_points(V, rng))
    d.SetCells([vtk.VTK_TRIANGLE if tri(q) else vtk.VTK_QUAD for q in F], vtk_cells(F))
    xml(vtk.vtkXMLUnstructuredGridWriter(), n, d, rng)


def w_vtk(n, V, F, rng):
    import vtk
    if rng.random() < .5:
        with open(n, 'w') as f:
            f.write('# vtk DataFile Version 3.0\na title\nASCII\nDATASET POLYDATA\nPOINTS %d %s\n' % (len(V), rng.choice(['float', 'double'])))
            f.write(''.join('%s %s %s%s' % (tuple('%.9e' % x for x in v) + (rng.choice(['\n', ' ']),)) for v in V) + '\n')
            f.write('POLYGONS %d %d\n' % (len(F), sum(4 if tri(q) else 5 for q in F)))
            f.write(''.join('%d %s\n' % (3 if tri(q) else 4, ' '.join(str(i) for i in (q[:3] if tri(q) else q))) for q in F))
        return
    d = vtk.vtkPolyData()
    d.SetPoints(vtk_points(V, rng))
    d.SetPolys(vtk_cells(F))
    w = vtk.vtkPolyDataWriter()
    w.SetFileName(n)
    w.SetInputData(d)
    w.SetFileTypeToBinary()  # (its ASCII keeps six digits only)
    if w.Write() != 1:
        raise AssertionError('the reference writer failed')


def w_tec(n, V, F, rng):
    ex = int(rng.integers(0, 3))
    X = np.column_stack([V] + [rng.normal(size=len(V)) for _ in range(ex)])
    with open(n, 'w') as f:
        f.write('TITLE = "t"\nVARIABLES = "X","Y","Z"%s\n' % ''.join(',"v%d"' % i for i in range(ex)))
        f.write('ZONE T="MESH" \n' if rng.random() < .5 else 'ZONE ')
        f.write('N=%d ,E= %d , F=FEPOINT, ET=QUADRILATERAL\n' % (len(V), len(F)))
        f.write(nodes(X, rng, True) + ''.join(row([str(i + 1) for i in q], rng) for q in F))


def w_med(n, V, F, rng):
    import h5py
    T = np.array([q[:3] for q in F if tri(q)], int).reshape(-1, 3) + 1
    Q = np.array([q for q in F if not tri(q)], int).reshape(-1, 4) + 1
    with h5py.File(n, 'w') as f:
        g = f.create_group('ENS_MAA/mesh/-0000000000000000001-0000000000000000001')
        g['NOE/COO'] = V.T.ravel()
        g['NOE/NUM'] = np.arange(1, len(V) + 1)
        if len(T):
            g['MAI/TR3/NOD'] = T.T.ravel()
        if len(Q):
            g['MAI/QU4/NOD'] = Q.T.ravel()
        if rng.random() < .5:
            g['MAI/SE2/NOD'] = np.array([1, 2])
        f.create_group('INFOS_GENERALES')


def w_wrl(n, V, F, rng):
    with open(n, 'w') as f:
        f.write('#VRML V2.0 utf8\nShape {\n  geometry IndexedFaceSet {\n    coord Coordinate { point [\n')
        f.write(''.join('      %s %s %s,\n' % tuple('%.9f' % x for x in v) for v in V))
        f.write('    ] }\n    coordIndex [\n')
        f.write(''.join('      %s, -1,\n' % ', '.join(str(i) for i in (q[:3] if tri(q) else q)) for q in F))
        f.write('    ]\n  }\n}\n')


def w_nem(n, V, F, rng):
    with open(n, 'w') as f:
        f.write('%d\n  %d\n' % (len(V), len(F)) + nodes(V, rng) + ''.join(row([str(i + 1) for i in q], rng) for q in F))


def w_pnl(n, V, F, rng, sym=(0, 0)):
    with open(n, 'w') as f:
        f.write('    --------------Hull Mesh File---------------\n\n    # Number of Panels, Nodes, X-Symmetry and Y-Symmetry\n')
        f.write(row([str(len(F)), str(len(V)), str(sym[0]), str(sym[1])], rng) + '\n    #Start Definition of Node Coordinates     ! node_number   x   y   z\n')
        f.write(nodes(V, rng, labels=range(1, len(V) + 1)))
        f.write('   #End Definition of Node Coordinates\n\n   #Start Definition of Node Relations\n')
        for i, q in enumerate(F):
            k = q[:3] if tri(q) else q
            f.write(row([str(i + 1), str(len(k))] + [str(j + 1) for j in k], rng))
        f.write('   #End Definition of Node Relations\n\n    --------------End Hull Mesh File---------------\n')


def w_obj(n, V, F, rng):
    with open(n, 'w') as f:
        f.write('# comment\no thing\n')
        f.write(''.join('v %s %s %s\n' % tuple('%.9e' % x for x in v) for v in V))
        f.write('g part\n')
        for i, q in enumerate(F):
            f.write('f %s\n' % sp(rng).join(str(j + 1) for j in (q[:3] if tri(q) else q)))
            if rng.random() < .05:
                f.write('# another comment\n')


def w_inp(n, V, F, rng):
    """Several bodies in several files: returns the expected assembly."""
    Vs, Fs = [], []
    nb = int(rng.integers(1, 5))
    parts = []
    for k in range(int(rng.integers(1, 3))):
        a, b = (V, F) if k == 0 else any_small(rng)
        L = labels_for(len(a), rng)
        sections = []
        T, Q = [q for q in b if tri(q)], [q for q in b if not tri(q)]
        for x in (T, Q) if rng.random() < .5 else (Q, T):
            if len(x):
                sections.append(np.array(x))
        with open('Part%d.DAT' % k, 'w') as f:
            f.write(nodes(a, rng, True, True, labels=L) + '*RETURN\n')
            e = 0
            for x in sections:
                for q in x:
                    e += 1
                    f.write(' %7d' % e + ''.join('%8d' % L[i] for i in (q[:3] if tri(q) else q)) + '\n')
                f.write('*RETURN\n')
        parts.append((a, sections))
    out = ['*DIODORE,PASS=ECN\n$ comment%s\n*MASSDENSITY\n1018.0\n' % rng.choice(['', ' of the buoys'])]
    frames = {}
    for i in range(int(rng.integers(1, 4))):
        t = np.round(rng.normal(size=3) * 20, 3)
        if i == 0 and rng.random() < .5:
            t[:] = 0.
        frames['FR%d' % (i + 1)] = t
        out.append('*FRAME,NAME=FR%d\n%s\n\n' % (i + 1, (',' if rng.random() < .7 else ' ').join('%.3f' % x for x in t)))
    off = 0
    for i in range(nb):
        k = int(rng.integers(len(parts)))
        fr = str(rng.choice(sorted(frames)))
        a, sections = parts[k]
        out.append('$ ---- body\n*NODE,INPUT=Part%d,FRAME=%s%s\n' % (k, fr, ',INCREMENT=YES' if i else ''))
        for x in sections:
            out.append('*ELEMENT,INPUT=Part%d,TYPE=%s,ELSTRUCTURE=B%d\n' % (k, 'T3C000' if tri(x[0]) else 'Q4C000', i))
            Fs.append(x + off)
        out.append('*MASS,STRUCTURE=B%d\n 0.0000000E+00\n' % i)
        Vs.append(a + frames[fr])
        off += len(a)
    with open(n, 'w') as f:
        f.write(''.join(out))
    return np.vstack(Vs), np.vstack(Fs)


FREE = {'gdf': b'a title with', 'diodore-dat': b'something', 'hst': b'someone', 'msh22': b'hull', 'rad': b'title', 'stl': b'a name', 'vtk': b'a title', 'tec': b'"t"',
        'pnl': b'Hull Mesh File', 'obj': b'comment', 'inp': b' comment'}


def dress(ctx, fmt, name):
    """The same file from another system: line ends, words of another language in the free text."""
    rng = ctx.rng
    if fmt in ('stlb', 'vtp', 'vtu', 'med'):
        return
    with open(name, 'rb') as f:
        b = f.read()
    if b'BINARY' in b[:300]:
        return
    if fmt in FREE and rng.random() < .3:
        word = str(rng.choice(['caf\u00e9', 'H\u00fclle n\u00b0 1', '\u00c9l\u00e9onore', '\u8239'])).encode('utf-8' if rng.random() < .4 else 'latin-1', 'replace')
        if word != b'?' and FREE[fmt] in b:
            b = b.replace(FREE[fmt], b'"%s"' % word if fmt == 'tec' else b' ' + word if fmt == 'inp' else word)
            ctx.saw('accents ' + fmt)
    if rng.random() < .2:
        b = b.replace(b'\n', b'\r\n')
        ctx.saw('CRLF ' + fmt)
    with open(name, 'wb') as f:
        f.write(b)


def any_small(rng):
    V, F = gens.soup(rng, int(rng.integers(1, 6)), rng.random())
    return V, F


WRITERS = {f: globals()['w_' + f.replace('diodore-', '')] for f in FMTS}
ACC = {'stl': 1.3e-7, 'stlb': 1.3e-7, 'vtu': 1.3e-7, 'vtp': 1.3e-7, 'vtk': 1.3e-7, 'wrl': 1.3e-7, 'obj': 1.3e-7, 'diodore-dat': 1e-8}


def run(ctx):
    from meshmagick import mmio
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    if ctx.kind == 'data':
        return data(ctx)
    if ctx.kind == 'names':
        return names(ctx)
    fmt = ctx.params['format']
    V, F, d = any_mesh(rng, bool(rng.random() < .15))
    if fmt.startswith('stl') and rng.random() < .3:         # small details
        V = V / max(np.abs(V).max(), 1e-9) * 10 ** rng.uniform(-4.5, -1)
    V = np.round(V, 7) + 0.
    a = 6e-10 + ACC.get(fmt, 1e-9) * np.abs(V).max()
    from scipy.spatial import cKDTree
    U = V[np.unique(F)]
    if cKDTree(U).query_pairs(8 * a + (2e-7 if fmt.startswith('stl') else 0)):
        V = V + rng.normal(size=V.shape) * (40 * a + 1e-6) if not fmt.startswith('stl') else V
        if fmt.startswith('stl') or cKDTree(V[np.unique(F)]).query_pairs(8 * a):
            ctx.saw('coincident vertices')
            return
    if fmt == 'rad' and len(F) < 3:
        F = np.vstack([F] * 3)
    name = str(rng.choice(['mesh', 'a b', 'X'])) + '.' + {'msh22': 'msh', 'msh41': 'msh', 'stlb': 'stl', 'diodore-dat': 'DAT'}.get(fmt, fmt)
    res = WRITERS[fmt](name, V, F, rng)
    dress(ctx, fmt, name)
    if res is not None:
        V, F = res
        a = 6e-10 + 1e-9 * np.abs(V).max()
    ctx.distinct(fmt, V, F)
    ctx.saw(fmt)
    ctx.sample = {'format': fmt, 'mesh': d, 'nv': len(V), 'nf': len(F)}
    with open(name, 'rb') as f:
        before = f.read()
    alias = str(rng.choice(ALIASES.get(fmt, (fmt,))))
    W, G = quiet(mmio.load_mesh, name, alias)
    with open(name, 'rb') as f:
        ctx.check('names', f.read() == before, fmt + ': reading changes the file')
    o = 'read-' + fmt
    ctx.check(o, isinstance(W, np.ndarray) and isinstance(G, np.ndarray), '%s: %s and %s, not arrays' % (fmt, type(W), type(G)))
    W, G = np.asarray(W), np.asarray(G)
    if not ctx.check(o, W.ndim == 2 and W.shape[1] == 3 and G.ndim == 2 and G.shape[1] == 4 and len(G) and G.min() >= 0 and G.max() < len(W),
                     '%s: bad arrays %s %s' % (fmt, W.shape, G.shape)):
        return
    Mesh(W, G)
    if fmt == 'pnl':                                         # half a ship is not the ship
        sym = [(1, 0), (0, 1), (1, 1)][int(rng.integers(3))]
        w_pnl('half.pnl', V, F, rng, sym)
        try:
            quiet(mmio.load_mesh, 'half.pnl', alias)
            ctx.check('symmetry', False, 'pnl: a file with symmetries %r is read as if it had none' % (sym,))
        except Exception:
            ctx.check('symmetry', True, '')
    if fmt == 'gdf':
        ctx.check(o, len(G) == len(F) and bool((np.abs(W[G] - V[F]) <= a).all()), 'gdf: other panels')
        return
    if fmt.startswith('stl'):
        T = np.array([[0, 1, 2]]) + 3 * np.arange(sum(1 if tri(q) else 2 for q in F))[:, None]
        X = np.vstack(tris_of(V, F))
        Fm = np.column_stack([T, T[:, 0]])
        ctx.check('triangles', bool((G[:, 0] == G[:, 3]).all()), 'stl: not triangles')
    else:
        X, Fm = V, F
        ctx.check('triangles', int((G[:, 0] == G[:, 3]).sum()) == sum(1 for q in F if tri(q)), '%s: %d triangles, %d expected' % (
            fmt, (G[:, 0] == G[:, 3]).sum(), sum(1 for q in F if tri(q))))
    # the polygons, through the nearest written vertex (vertices that faces use are distinct)
    used = np.unique(Fm)
    dist, near = cKDTree(X[used]).query(W[np.unique(G)])
    tol = 2 * a + (2e-8 if fmt.startswith('stl') else 0)
    ctx.check(o, dist.max() <= tol * 2, '%s: a vertex is %g away from those of the file' % (fmt, dist.max()))
    key = {int(g): tuple(np.round(X[used[k]], 12)) for g, k in zip(np.unique(G), near)}

    def poly(pts):
        k = pts.index(min(pts))
        return tuple(pts[k:] + pts[:k])
    want = collections.Counter(poly([tuple(np.round(X[i], 12)) for i in (q[:3] if tri(q) else q)]) for q in Fm)
    got = collections.Counter(poly([key[int(i)] for i in (q[:3] if q[0] == q[3] else q)]) for q in G)
    ctx.check(o, want == got, '%s %s: %d faces of the file are missing, %d are not in the file' % (
        fmt, d, sum((want - got).values()), sum((got - want).values())))
    # the vertex list, where the format has one
    if not fmt.startswith('stl') and fmt not in ('inp', 'wrl'):
        ctx.check(o, len(W) == len(V), '%s: %d vertices, %d in the file' % (fmt, len(W), len(V)))


def data(ctx):
    """The ship the repository ships in several formats."""
    import meshmagick
    from meshmagick import mmio
    from meshmagick.mesh import Mesh
    d = os.path.join(os.path.dirname(meshmagick.__file__), 'tests', 'data')
    ref = None
    for f in ('vtp', 'vtu', 'hst', 'mar', 'tec'):
        p = os.path.join(d, 'SEAREV.' + f)
        if not os.path.exists(p):
            continue
        W, G = quiet(mmio.load_mesh, p, f)
        ctx.saw('SEAREV.' + f)
        ctx.distinct(f)
        pts = np.round(W[G], 3)
        q = (len(W), len(G), pts.sum(axis=(0, 1)))
        v = geom.volume_moments(W, G)[0]
        if ref is None:
            ref = q, v
        ctx.check('same-ship', q[:2] == ref[0][:2] and np.allclose(q[2], ref[0][2], atol=1e-3 * len(G)) and abs(v - ref[1]) < 1e-4 * abs(ref[1]),
                  '%s: %d vertices, %d faces, volume %g' % (f, q[0], q[1], v))
    for f, n, k in (('coque.gdf', 'gdf', 'panels'), ('Cylinder.vtp', 'vtp', None), ('barge.med', 'med', None), ('cylinder.msh', 'msh', None),
                    ('coque.stl', 'stl', None), ('SEAREV.msh', 'msh', None), ('Buoys.inp', 'inp', None)):
        p = os.path.join(d, f)
        if os.path.exists(p):
            W, G = quiet(mmio.load_mesh, p, n)
            ctx.saw(f)
            m = Mesh(W, G)
            ctx.check('same-ship', m.nb_faces > 0 and bool(np.isfinite(m.faces_areas).all()) and G.min() >= 0 and G.max() < len(W), f)
    ctx.sample = {'ship': ref}


def names(ctx):
    """The names of the formats: all documented ones are known, others are refused."""
    from meshmagick import mmio
    ctx.distinct('names')
    for k in ('mar', 'nemoh', 'wamit', 'gdf', 'diodore-inp', 'inp', 'diodore-dat', 'hydrostar', 'hst', 'natural', 'nat', 'gmsh', 'msh', 'rad', 'radioss',
              'stl', 'vtu', 'vtp', 'paraview-legacy', 'vtk', 'tecplot', 'tec', 'med', 'salome', 'vrml', 'wrl', 'nem', 'nemoh_mesh', 'pnl', 'hams', 'obj'):
        ctx.check('names', bool(mmio.know_extension(k)) and k in mmio.extension_dict, k + ' is not a known format')
    for k in ('', 'doc', 'MAR', 'xyz', 'msh ', '.mar'):
        ctx.check('names', not mmio.know_extension(k), '%r is a known format' % k)
