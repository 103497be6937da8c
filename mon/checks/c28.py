"""C28: the files that are written, as other programs read them."""
import contextlib
import io
import math
import os
import re
import resource
import sys
import xml.etree.ElementTree as ET
import numpy as np
from mon import gens, geom
from mon.checks import c20

PROP = 'C28'
LEVEL = 'exploration'
RULE = ('Meshes of every generator written in every writable format, with write_mesh, the writer of the format, Mesh.quick_save and '
        'the command line, on a new file or over a longer one.  The file is read by a strict parser of the format that is not '
        "meshmagick's (VTK's own readers as well where VTK has one): its counts, symmetry flags, sections, terminators, numbering, "
        'vertices and faces are compared with the mesh.  Some writes meet a limit on the size of files.')
ASSUMPTIONS = ['The grammars are those of the public documentation of the formats: NEMOH mar and nem, WAMIT low-order GDF, HAMS HullMesh.pnl, '
               'HydroStar hst, Diodore, Tecplot FEPOINT, ASCII STL, Wavefront OBJ and the VTK formats; blanks and the notation of numbers '
               'are free, and so is the text of titles and comments.',
               'Accuracy demanded of each format: as for C20.',
               'Facet normals of stl files are judged for triangles whose shape the digits written determine.',
               "The limit on the size of files is not applied to the formats that VTK's own writers produce (vtu, vtp), which are not meshmagick's code."]
REQUIRED = ('readable', 'counts', 'symmetry', 'vertices', 'faces', 'normals', 'vtk-reader', 'truncated', 'refused', 'quick-save', 'command-line', 'large')
N = {'quick': 39, 'thorough': 500}
INDEXED = [f for f in c20.FORMATS if f not in ('stl', 'gdf')]


def preload():
    import vtk  # noqa


class Bad(Exception):
    pass


class Lines:
    """The lines of a file, one after the other."""

    def __init__(self, name):
        with open(name, encoding='utf-8', newline=None) as f:
            s = f.read()
        if not s.endswith('\n'):
            raise Bad('the last line has no end')
        self.l = s.split('\n')[:-1]
        self.i = 0

    def next(self, what='a line'):
        if self.i >= len(self.l):
            raise Bad('the file ends where %s is expected' % what)
        self.i += 1
        return self.l[self.i - 1]

    def fields(self, n, what):
        f = self.next(what).split()
        if n is not None and len(f) != n:
            raise Bad('line %d: %d fields %r for %s' % (self.i, len(f), f[:6], what))
        return f

    def ints(self, n, what):
        return [integer(x) for x in self.fields(n, what)]

    def reals(self, n, what):
        return [real(x) for x in self.fields(n, what)]

    def blank(self):
        while self.i < len(self.l) and not self.l[self.i].strip():
            self.i += 1

    def end(self):
        self.blank()
        if self.i < len(self.l):
            raise Bad('line %d %r is superfluous' % (self.i + 1, self.l[self.i][:60]))


def integer(s):
    if not re.fullmatch(r'[+-]?\d+', s):
        raise Bad('%r is not an integer' % s)
    return int(s)


def real(s):
    if not re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([EeDd][+-]?\d+)?', s):
        raise Bad('%r is not a number' % s)
    return float(s.replace('D', 'E').replace('d', 'e'))


def need(ok, what):
    if not ok:
        raise Bad(what)


# Each returns what the file says: V, F (0-based; None for formats that list panels), and the counts and symmetry flags
# of its header: {'nv':, 'nf':, 'sym': (flags)}

def read_mar(name):
    """NEMOH: '2 sym', vertices 'i x y z' up to '0 ...', faces 'i j k l' up to '0 ...'."""
    L = Lines(name)
    a, sym = L.ints(2, 'the header')
    need(a == 2, 'the header starts with %d, not 2' % a)
    V, F = [], []
    while True:
        f = L.fields(None, 'a vertex')
        need(f, 'line %d is empty' % L.i)
        if integer(f[0]) == 0:
            need(len(f) in (4, 5) and all(real(x) == 0 for x in f), 'the line %r ends the vertices' % f)
            break
        need(len(f) == 4, 'line %d: %d fields for a vertex' % (L.i, len(f)))
        V.append([real(x) for x in f[1:]])
        need(integer(f[0]) == len(V), 'vertex %d is numbered %s' % (len(V), f[0]))
    while True:
        f = L.ints(4, 'a face')
        if f[0] == 0:
            need(not any(f), 'the line %r ends the faces' % f)
            break
        F.append(f)
    L.end()
    return V, F, 1, {'sym': (sym,)}


def read_nem(name):
    L = Lines(name)
    nv, = L.ints(1, 'the number of vertices')
    nf, = L.ints(1, 'the number of faces')
    V = [L.reals(3, 'a vertex') for _ in range(nv)]
    F = [L.ints(4, 'a face') for _ in range(nf)]
    L.end()
    return V, F, 1, {'nv': nv, 'nf': nf}


def read_nat(name):
    L = Lines(name)
    sym = tuple(L.ints(2, 'the symmetries'))
    nv, nf = L.ints(2, 'the numbers of vertices and faces')
    V = [L.reals(3, 'a vertex') for _ in range(nv)]
    F = [L.ints(4, 'a face') for _ in range(nf)]
    L.end()
    return V, F, 1, {'nv': nv, 'nf': nf, 'sym': sym}


def read_gdf(name):
    """WAMIT: title, ULEN GRAV, ISX ISY, NPAN, then 12 coordinates for each panel."""
    L = Lines(name)
    title = L.next('the title')
    need(len(title) <= 72, 'the title is longer than 72 characters')
    ulen, grav = L.reals(2, 'ULEN GRAV')
    need(ulen > 0 and 9.7 < grav < 9.9, 'ULEN %g, GRAV %g' % (ulen, grav))
    sym = tuple(L.ints(2, 'ISX ISY'))
    nf, = L.ints(1, 'NPAN')
    P = []
    while len(P) < 12 * nf:
        P += L.reals(None, 'panel %d' % (len(P) // 12))
    need(len(P) == 12 * nf, '%d coordinates for %d panels' % (len(P), nf))
    L.end()
    return np.reshape(P, (nf, 4, 3)), None, 0, {'nf': nf, 'sym': sym}


def read_hst(name):
    L = Lines(name)
    head, seen = {}, []
    V, F = [], []
    while True:
        L.blank()
        f = L.fields(None, 'ENDFILE')
        k = f[0].upper().rstrip(':')
        seen.append(k)
        if k == 'ENDFILE':
            break
        if k == 'COORDINATES':
            while True:
                f = L.fields(None, 'ENDCOORDINATES')
                if f[:1] == ['ENDCOORDINATES']:
                    break
                need(len(f) == 4, 'line %d: %d fields for a vertex' % (L.i, len(f)))
                V.append([real(x) for x in f[1:]])
                need(integer(f[0]) == len(V), 'vertex %d is numbered %s' % (len(V), f[0]))
        elif k == 'PANEL':
            need([x.upper() for x in f[1:]] == ['TYPE', '0'], 'the panels are of %r' % f)
            while True:
                f = L.fields(None, 'ENDPANEL')
                if f[:1] == ['ENDPANEL']:
                    break
                need(len(f) == 4, 'line %d: %d fields for a panel' % (L.i, len(f)))
                F.append([integer(x) for x in f])
        else:
            need(k in ('PROJECT', 'USERS', 'USER', 'NBODY', 'RHO', 'GRAVITY', 'SYMMETRY_BODY'), 'line %d: %r' % (L.i, f[:4]))
            head[k] = f[1:]
    L.end()
    need(seen.count('COORDINATES') == 1 and seen.count('PANEL') == 1 and seen.index('COORDINATES') < seen.index('PANEL'), 'sections %r' % seen)
    need(head.get('NBODY') == ['1'], 'NBODY %r' % head.get('NBODY'))
    rho, g = (real(head[k][0]) if len(head.get(k, [])) == 1 else math.nan for k in ('RHO', 'GRAVITY'))
    need(990 < rho < 1040 and 9.7 < g < 9.9, 'RHO %g, GRAVITY %g' % (rho, g))
    sym = head.get('SYMMETRY_BODY')
    return V, F, 1, {'sym': (0,) if sym is None else (integer(sym[-1]),)}


def read_dat(name):
    """Diodore: lines of comment start with $; a block of nodes, a block for each type of element, each ended by *RETURN."""
    L = Lines(name)
    blocks, title, rows = [], '', []
    while L.i < len(L.l):
        s = L.next()
        if s.startswith('$'):
            need(not rows, 'line %d: a comment before *RETURN' % L.i)
            title = s[1:].strip() or title
        elif s.strip() == '*RETURN':
            blocks.append((title, rows))
            title, rows = '', []
        else:
            need(not s.startswith('*'), 'line %d: %r' % (L.i, s[:40]))
            rows.append(s.split())
    need(not rows, 'the last block has no *RETURN')
    need(1 <= len(blocks) <= 3 and blocks[0][0] == 'NODE', 'blocks %r' % [b[0] for b in blocks])
    V, F, seen = [], {}, []
    for r in blocks[0][1]:
        need(len(r) == 4, '%d fields for a node' % len(r))
        V.append([real(x) for x in r[1:]])
        need(integer(r[0]) == len(V), 'node %d is numbered %s' % (len(V), r[0]))
    for t, rows in blocks[1:]:
        m = re.search(r'ELEMENT\s*,\s*TYPE=(Q4C000|T3C000)\b', t)
        need(m and m.group(1) not in seen and rows, 'block %r with %d rows' % (t, len(rows)))
        seen.append(m.group(1))
        n = 4 if m.group(1) == 'Q4C000' else 3
        for r in rows:
            need(len(r) == n + 1, '%d fields for an element of type %s' % (len(r), m.group(1)))
            i = integer(r[0])
            need(i not in F, 'two elements are numbered %d' % i)
            F[i] = [integer(x) for x in r[1:]]
            F[i] += F[i][:4 - n]
            need(n == 3 or F[i][0] != F[i][3], 'element %d of type Q4C000 has three nodes' % i)
    need(sorted(F) == list(range(1, len(F) + 1)), 'the elements are not numbered from 1 to %d' % len(F))
    return V, [F[i + 1] for i in range(len(F))], 1, {'elements': seen}


def read_tec(name):
    with open(name) as f:
        s = f.read()
    m = re.fullmatch(r'TITLE\s*=\s*"[^"\n]*"\s*\nVARIABLES\s*=\s*((?:"[^"]*"[\s,]*)+)\nZONE\s(.*?)\n(?=[ \t]*[-+.\d])(.*)', s, re.S)
    need(m, 'no TITLE, VARIABLES, ZONE')
    need(re.findall('"([^"]*)"', m.group(1)) == ['X', 'Y', 'Z'], 'VARIABLES %s' % m.group(1))
    head = dict(re.findall(r'\b(T|N|E|F|ET|NODES|ELEMENTS|DATAPACKING|ZONETYPE)\s*=\s*("[^"]*"|[^\s,]+)', m.group(2)))
    left = re.sub(r'\b\w+\s*=\s*("[^"]*"|[^\s,]+)', '', m.group(2))
    need(not left.strip(' ,\n'), 'ZONE %r' % m.group(2))
    need(head.get('F') == 'FEPOINT' and head.get('ET') == 'QUADRILATERAL', 'ZONE %r' % head)
    nv, nf = integer(head.get('N', '')), integer(head.get('E', ''))
    d = m.group(3).split()
    need(len(d) == 3 * nv + 4 * nf, '%d values for N=%d, E=%d' % (len(d), nv, nf))
    V = np.reshape([real(x) for x in d[:3 * nv]], (nv, 3))
    F = np.reshape([integer(x) for x in d[3 * nv:]], (nf, 4))
    return V, F, 1, {'nv': nv, 'nf': nf}


def read_pnl(name):
    """HAMS: the lines are counted; 3, the header, 2, the nodes, 3, the panels."""
    L = Lines(name)
    for _ in range(3):
        L.next('the header')
    nf, nv, sx, sy = L.ints(4, 'the header')
    need(not L.next().strip() and '#Start Definition of Node Coordinates' in L.next(), 'line %d is not the start of the nodes' % L.i)
    V, F = [], []
    for i in range(nv):
        f = L.fields(4, 'a node')
        need(integer(f[0]) == i + 1, 'node %d is numbered %s' % (i + 1, f[0]))
        V.append([real(x) for x in f[1:]])
    need('#End Definition of Node Coordinates' in L.next('#End'), 'line %d is not the end of the nodes' % L.i)
    need(not L.next().strip() and '#Start Definition of Node Relations' in L.next(), 'line %d is not the start of the panels' % L.i)
    for i in range(nf):
        f = L.ints(None, 'a panel')
        need(len(f) > 2 and f[0] == i + 1, 'panel %d: %r' % (i + 1, f))
        need(f[1] in (3, 4) and len(f) == f[1] + 2, 'panel %d: %r' % (i + 1, f))
        need(f[1] == 3 or f[2] != f[5], 'panel %d of four nodes has three' % (i + 1))
        F.append(f[2:] if f[1] == 4 else f[2:] + f[2:3])
    need('#End Definition of Node Relations' in L.next('#End'), 'line %d is not the end of the panels' % L.i)
    L.blank()
    need('End Hull Mesh File' in L.next('the last line'), 'the last line')
    L.end()
    return V, F, 1, {'nv': nv, 'nf': nf, 'sym': (sx, sy)}


def read_obj(name):
    L = Lines(name)
    V, F, head = [], [], {}
    while L.i < len(L.l):
        s = L.next()
        m = re.fullmatch(r'#\s*(Vertices|Faces):\s*(\d+)\s*', s)
        if m:
            head['nv' if m.group(1) == 'Vertices' else 'nf'] = int(m.group(2))
        f = s.split('#')[0].split()
        if not f:
            continue
        if f[0] == 'v':
            need(len(f) == 4, 'line %d: %d coordinates' % (L.i, len(f) - 1))
            V.append([real(x) for x in f[1:]])
        elif f[0] == 'f':
            need(len(f) in (4, 5), 'line %d: a face of %d vertices' % (L.i, len(f) - 1))
            g = [integer(x) for x in f[1:]]
            need(max(g) <= len(V), 'line %d: a vertex that is not defined before the face' % L.i)
            need(len(g) == 3 or g[0] != g[3], 'line %d: a triangle with a repeated vertex' % L.i)
            F.append(g if len(g) == 4 else g + g[:1])
        else:
            raise Bad('line %d: %r' % (L.i, f[0]))
    return V, F, 1, head


def read_vtk(name):
    L = Lines(name)
    need(re.fullmatch(r'# vtk DataFile Version [2-5]\.\d', L.next()), 'the first line is %r' % L.l[0])
    need(len(L.next()) < 256, 'the title is longer than 255 characters')
    need(L.next().strip() == 'ASCII' and L.fields(2, 'DATASET') == ['DATASET', 'POLYDATA'], 'ASCII, DATASET POLYDATA')
    f = L.fields(3, 'POINTS')
    need(f[0] == 'POINTS' and f[2] in ('float', 'double'), '%r' % f)
    nv = integer(f[1])
    V = [L.reals(3, 'a point') for _ in range(nv)]
    f = L.fields(3, 'POLYGONS')
    need(f[0] == 'POLYGONS', '%r' % f)
    nf, size = integer(f[1]), integer(f[2])
    F = []
    for _ in range(nf):
        g = L.ints(None, 'a polygon')
        need(g and g[0] in (3, 4) and len(g) == g[0] + 1, 'polygon %r' % g)
        need(g[0] == 3 or g[1] != g[4], 'the polygon %r repeats a point' % g)
        size -= len(g)
        F.append(g[1:] if g[0] == 4 else g[1:] + g[1:2])
    need(size == 0, 'the size of POLYGONS is wrong by %d' % size)
    L.end()
    return V, F, 0, {'nv': nv, 'nf': nf}


def read_vtx(name, kind, cells, count):
    t = ET.parse(name).getroot()
    need(t.tag == 'VTKFile' and t.get('type') == kind, '%s %r' % (t.tag, t.attrib))
    P = t.findall('%s/Piece' % kind)
    need(len(P) == 1, '%d pieces' % len(P))
    P = P[0]
    nv, nf = int(P.get('NumberOfPoints')), int(P.get(count))
    for k in ('NumberOfVerts', 'NumberOfLines', 'NumberOfStrips'):
        need(P.get(k) in (None, '0'), '%s %s' % (k, P.get(k)))
    need(all(x.get('format') == 'ascii' for x in P.iter('DataArray')), 'not ascii')
    V = np.array((P.find('Points/DataArray').text or '').split(), float)
    need(len(V) == 3 * nv, '%d coordinates' % len(V))
    a = {x.get('Name'): np.array((x.text or '').split(), int) for x in P.findall(cells + '/DataArray')}
    need(len(a['offsets']) == nf, '%d offsets' % len(a['offsets']))
    F = []
    for k in range(nf):
        g = a['connectivity'][a['offsets'][k - 1] if k else 0:a['offsets'][k]].tolist()
        need(len(g) in (3, 4), 'a cell of %d points' % len(g))
        need(len(g) == 3 or g[0] != g[3], 'a cell repeats a point')
        if 'types' in a:
            need(len(a['types']) == nf and a['types'][k] == {3: 5, 4: 9}[len(g)], 'a cell of type %d has %d points' % (a['types'][k], len(g)))
        F.append(g if len(g) == 4 else g + g[:1])
    need(nf == 0 or len(a['connectivity']) == a['offsets'][-1], 'connectivity')
    return V.reshape(-1, 3), F, 0, {'nv': nv, 'nf': nf}


def read_vtp(name):
    return read_vtx(name, 'PolyData', 'Polys', 'NumberOfPolys')


def read_vtu(name):
    return read_vtx(name, 'UnstructuredGrid', 'Cells', 'NumberOfCells')


def read_stl(name):
    """Triangles, and their normals."""
    L = Lines(name)
    f = L.fields(None, 'solid')
    need(f[:1] == ['solid'], '%r' % f)
    T, n = [], []
    while True:
        f = L.fields(None, 'endsolid')
        if f[:1] == ['endsolid']:
            break
        need(f[:2] == ['facet', 'normal'] and len(f) == 5, 'line %d: %r' % (L.i, f))
        n.append([real(x) for x in f[2:]])
        need(L.fields(2, 'outer loop') == ['outer', 'loop'], 'line %d' % L.i)
        t = []
        for _ in range(3):
            f = L.fields(4, 'a vertex')
            need(f[0] == 'vertex', 'line %d: %r' % (L.i, f))
            t.append([real(x) for x in f[1:]])
        T.append(t)
        need(L.fields(1, 'endloop') == ['endloop'], 'line %d' % L.i)
        need(L.fields(1, 'endfacet') == ['endfacet'], 'line %d' % L.i)
    L.end()
    return np.reshape(T, (-1, 3, 3)), None, 0, {'normals': np.reshape(n, (-1, 3))}


READ = {k[5:]: v for k, v in list(globals().items()) if k.startswith('read_') and k != 'read_vtx'}


def vtk_reader(name, fmt):
    """What VTK's own reader of the format sees."""
    import vtk
    r = {'vtk': vtk.vtkPolyDataReader, 'vtp': vtk.vtkXMLPolyDataReader, 'vtu': vtk.vtkXMLUnstructuredGridReader,
         'obj': vtk.vtkOBJReader, 'stl': vtk.vtkSTLReader}[fmt]()
    r.SetFileName(name)
    if fmt == 'stl':
        r.MergingOff()
    r.Update()
    d = r.GetOutput()
    V = np.array([d.GetPoint(i) for i in range(d.GetNumberOfPoints())]).reshape(-1, 3)
    F = []
    for i in range(d.GetNumberOfCells()):
        c = d.GetCell(i)
        g = [c.GetPointId(k) for k in range(c.GetNumberOfPoints())]
        F.append(g)
    return V, F


def cases(tier, seed):
    out = [('large', i, {'format': f}) for i, f in enumerate(sorted(c20.FORMATS))]
    i = 0
    for k in range(N[tier]):
        for f in sorted(c20.FORMATS):
            out.append(('file', i, {'format': f, 'tiny': k % 4 == 0}))
            i += 1
    out += [('limit', k, {}) for k in range(N[tier])]
    out += [('refused', k, {}) for k in range(max(2, N[tier] // 10))]
    out += [('quick-save', k, {}) for k in range(N[tier])]
    out += [('command-line', k, {'format': f}) for k, f in enumerate(sorted(c20.FORMATS) * (N[tier] // 13))]
    return out


def judge(ctx, name, V, F, fmt, d, o=None):
    """The file holds (V, F)."""
    t = c20.tol(V, fmt)
    try:
        W, G, base, head = READ[fmt](name)
    except (Bad, ET.ParseError, UnicodeDecodeError, KeyError, ValueError, TypeError, AttributeError, IndexError) as e:
        ctx.check(o or 'readable', False, '%s %s: %s: %s' % (fmt, d, type(e).__name__, e))
        return False
    ctx.check(o or 'readable', True, '')
    W = np.asarray(W, float)
    if fmt == 'stl':
        return judge_stl(ctx, W, head['normals'], V, F, t, d, o)
    nf = len(W) if G is None else len(G)
    ctx.check(o or 'counts', head.get('nv', len(V)) == len(V) and head.get('nf', len(F)) == len(F) and nf == len(F)
              and (G is None or len(W) == len(V)), '%s %s: the file announces %r, holds %d vertices and %d faces; the mesh has %d and %d' % (
                  fmt, d, {k: head[k] for k in head if k in ('nv', 'nf')}, len(W), nf, len(V), len(F)))
    if 'sym' in head:
        ctx.check(o or 'symmetry', not any(head['sym']), '%s %s: the whole mesh is written with the symmetry flags %r' % (fmt, d, head['sym']))
    if G is None:
        if nf != len(F):
            return False
        # any corner may come first, any corner of a triangle may be the repeated one
        ways = [[i, (i + 1) % 4, (i + 2) % 4, (i + 3) % 4] for i in range(4)]
        tri = F[:, 0] == F[:, 3]
        ways3 = [[a, a, b, c] for a, b, c in ((0, 1, 2), (1, 2, 0), (2, 0, 1))]
        ways3 = [w[i:] + w[:i] for w in ways3 for i in range(4)]
        dev = np.full(nf, np.inf)
        for which, ws in ((tri, ways3), (~tri, ways)):
            for w in ws:
                e = (np.abs(W - V[F[:, w]]) - t[F[:, w]]).max(axis=(1, 2))
                dev[which] = np.minimum(dev, e)[which]
        return ctx.check(o or 'vertices', bool((dev <= 0).all()), '%s %s: a panel has other corners (by %g)' % (fmt, d, dev.max()))
    if W.shape != V.shape or nf != len(F):
        return False
    ok = ctx.check(o or 'vertices', bool((np.abs(W - V) <= t).all()), '%s %s: vertices off by %g' % (fmt, d, np.abs(W - V).max()))
    G = np.asarray(G, int).reshape(-1, 4) - base
    ok &= ctx.check(o or 'faces', all(c20.cyc(a) == c20.cyc(b) for a, b in zip(F, G)) and bool(np.array_equal(F[:, 0] == F[:, 3], G[:, 0] == G[:, 3])),
                    '%s %s: other faces' % (fmt, d))
    if 'elements' in head:
        tri = F[:, 0] == F[:, 3]
        want = set((['Q4C000'] if (~tri).any() else []) + (['T3C000'] if tri.any() else []))
        ctx.check(o or 'counts', set(head['elements']) == want, '%s %s: blocks %r' % (fmt, d, head['elements']))
    if ok and fmt in ('vtk', 'vtp', 'vtu', 'obj') and o != 'large':
        X, H = vtk_reader(name, fmt)
        ctx.check('vtk-reader', X.shape == V.shape and bool((np.abs(X - V) <= t).all()), "%s %s: VTK's reader sees other vertices" % (fmt, d))
        ctx.check('vtk-reader', [c20.cyc(h if len(h) == 4 else h + h[:1]) for h in H if len(h) in (3, 4)] == [c20.cyc(f) for f in F]
                  and len(H) == len(F), "%s %s: VTK's reader sees other faces" % (fmt, d))
    return ok


def judge_stl(ctx, T, n, V, F, t, d, o):
    ntri = len(F) + int((F[:, 0] != F[:, 3]).sum())
    if not ctx.check(o or 'counts', len(T) == ntri, 'stl %s: %d triangles, not %d' % (d, len(T), ntri)):
        return False
    # the triangles are those of the mesh (which diagonal splits a quadrangle is free): c20's judge on the corners
    W = T.reshape(-1, 3)
    G = np.arange(len(W)).reshape(-1, 3)
    G = np.column_stack([G, G[:, 0]])
    ok = c20.judge_stl(ctx, V, F, W, G, t, d, o or 'faces')
    if ok and len(T):
        a = geom.tri_vec_area(T)
        s = np.linalg.norm(a, axis=1)
        ctx.check(o or 'normals', bool(np.abs(np.linalg.norm(n, axis=1) - 1).max() < 2e-6), 'stl %s: a facet normal is not a unit vector' % d)
        # the digits written determine the normal to about (digits/height of the triangle)
        edge = np.maximum.reduce([np.linalg.norm(T[:, i] - T[:, i - 1], axis=1) for i in range(3)])
        err = 1e-5 + 8 * t.max() * edge / np.maximum(s, 1e-300)
        good = err < .2
        dev = np.linalg.norm(n - a / s[:, None], axis=1)
        ctx.check(o or 'normals', bool((dev <= err)[good].all()), 'stl %s: a facet normal is not that of its vertices (off by %g)' % (d, dev[good].max() if good.any() else 0))
        if o != 'large':
            X, H = vtk_reader(ctx.stl, 'stl')
            ctx.check('vtk-reader', len(H) == len(T) and bool((np.abs(X[np.array(H)] - T) <= 1.5e-7 * np.abs(T) + 1e-30).all()),
                      "stl %s: VTK's reader sees other triangles" % d)
    return ok


def pick(rng, fmt, tiny):
    for _ in range(40):
        V, F, d = c20.mesh(rng, tiny)
        s = rng.random()
        if s < .12:                                      # flat
            V[:, int(rng.integers(3)) if rng.random() < .3 else 2] = float(rng.choice([0., -2.5]))
            d += '/flat'
        elif s < .2:                                     # on one side of a plane of symmetry, touching it
            k = int(rng.integers(2))
            V[:, k] -= V[:, k].min() if rng.random() < .7 else V[:, k].max()
            d += '/side'
        elif s < .45 and fmt == 'stl':                   # triangles of all sizes
            V = (V - V.mean(axis=0)) * 10 ** rng.uniform(-4, -2) / max(np.ptp(V, axis=0).max(), 1e-9)
            d += '/small'
        if fmt != 'stl' or c20.separated(V, F, c20.tol(V, fmt)):
            return V, F, d
    V, F, d = gens.solid(rng)
    return V, F, d


def run(ctx):
    rng = ctx.rng
    k = ctx.kind
    if k == 'large':
        return large(ctx)
    if k == 'limit':
        return limit(ctx)
    if k == 'refused':
        return refused(ctx)
    if k == 'quick-save':
        return quick_save(ctx)
    if k == 'command-line':
        return command_line(ctx)
    fmt = ctx.params['format']
    V, F, d = pick(rng, fmt, ctx.params['tiny'])
    name = ctx.stl = c20.filename(fmt, rng)
    ctx.distinct(fmt, V, F)
    ctx.saw(fmt)
    ctx.sample = {'format': fmt, 'mesh': d, 'nv': len(V), 'nf': len(F), 'file': name}
    if rng.random() < .4:                                # over a longer file
        with open(name, 'w') as f:
            f.write('1 2 3 4\n' * int(rng.integers(1, 20000)))
        d += '/over'
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        c20_save(name, V, F, fmt, rng)
    judge(ctx, name, V, F, fmt, d)
    if fmt == 'dat':
        tri = F[:, 0] == F[:, 3]
        s = out.getvalue()
        ctx.check('counts', ('Q4C000' in s) == bool((~tri).any()) and ('T3C000' in s) == bool(tri.any()) and '*NODE' in s,
                  'dat %s: the suggestions for the input file do not name the blocks of the file' % d)


def c20_save(name, V, F, fmt, rng):
    """As c20.save, without hiding what is printed."""
    from meshmagick import mmio
    V, F = c20.dress(V, F, rng)
    if rng.random() < .7:
        mmio.write_mesh(name, V, F, str(rng.choice(c20.FORMATS[fmt][0])))
    else:
        getattr(mmio, 'write_' + fmt.upper())(name, V, F)


def large(ctx):
    fmt = ctx.params['format']
    n = 318
    x, y = np.meshgrid(np.arange(n + 1.), np.arange(n + 1.), indexing='ij')
    V = np.column_stack([x.ravel() * 1000 - 300000., y.ravel() * .5, np.sin(.1 * x).ravel()])
    i, j = (a.ravel() for a in np.meshgrid(np.arange(n), np.arange(n), indexing='ij'))
    a = i * (n + 1) + j
    F = np.column_stack([a, a + n + 1, a + n + 2, a + 1])
    F[::7, 3] = F[::7, 0]
    if fmt == 'stl':
        V[:, 0] = V[:, 0] / 1000
        F = F[:34000]
        V = V[:F.max() + 1]
    name = ctx.stl = 'large.' + fmt.upper()
    ctx.distinct(fmt)
    c20.save(name, V, F, fmt, ctx.rng)
    judge(ctx, name, V, F, fmt, 'large', 'large')


def limit(ctx):
    """The disk accepts only a part of the file: the writer says so, or the file is complete."""
    rng = ctx.rng
    fmt = str(rng.choice([f for f in c20.FORMATS if f not in ('vtu', 'vtp')]))
    V, F, d = pick(rng, fmt, False)
    name = ctx.stl = c20.filename(fmt, rng)
    c20.save(name, V, F, fmt, rng)
    size = os.path.getsize(name)
    os.remove(name)
    cut = int(rng.choice([0, 1, size // 2, size - 1, size - 5, int(rng.integers(size)), size + 4096]))
    ctx.distinct(fmt, V, F, cut)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    err = None
    resource.setrlimit(resource.RLIMIT_FSIZE, (max(cut, 0), hard))
    try:
        c20.save(name, V, F, fmt, rng)
    except OSError as e:
        err = e
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    ctx.saw('limit: ' + ('error' if err else 'written'))
    if err is None:
        try:
            READ[fmt](name)
            ok = True
        except Exception:
            ok = False
        ctx.check('truncated', ok, '%s: %d of %d bytes could be written and no error was raised' % (fmt, cut, size))
    else:
        ctx.check('truncated', cut < size + 200, '%s: %r with room enough' % (fmt, err))


def refused(ctx):
    """No file appears for a format that cannot be written."""
    from meshmagick import mmio
    rng = ctx.rng
    V, F, d = gens.solid(rng)
    ctx.distinct(V, F)
    for f in ('rad', 'radioss', 'inp', 'diodore-inp', 'msh', 'gmsh', 'med', 'salome', 'wrl', 'vrml', 'xyz', '', 'STEP'):
        name = 'no.' + (f or 'none')
        try:
            c20.quiet(mmio.write_mesh, name, V, F, f)
            err = None
        except Exception as e:
            err = e
        known = mmio.know_extension(f)
        ctx.check('refused', isinstance(err, NotImplementedError if known else IOError), 'format %r (known %s): %r' % (f, known, err))
        ctx.check('refused', not os.path.exists(name), 'format %r: a file appears' % f)


def quick_save(ctx):
    from meshmagick.mesh import Mesh
    rng = ctx.rng
    V, F, d = pick(rng, 'vtp', rng.random() < .2)
    V, F = V + 0., F
    m = Mesh(*c20.dress(V, F, rng))
    ctx.distinct(V, F)
    names = [None, 'a.vtp', 'b', 'c.d', 'x y']
    n = names[int(rng.integers(len(names)))]
    before = set(os.listdir('.'))
    m.quick_save() if n is None else m.quick_save(n)
    new = set(os.listdir('.')) - before
    want = 'quick_save.vtp' if n is None else n if n.endswith('.vtp') else n + '.vtp'
    if ctx.check('quick-save', new == {want}, 'quick_save(%r) wrote %r' % (n, new)):
        judge(ctx, want, V, F, 'vtp', 'quick_save', 'quick-save')
    ctx.check('quick-save', np.array_equal(m.vertices, V) and np.array_equal(m.faces, F), 'quick_save changes the mesh')


def command_line(ctx):
    """meshmagick in.nat -o out.ext, and with -ofmt."""
    from mon.checks import c23
    rng = ctx.rng
    fmt = ctx.params['format']
    V, F, d = pick(rng, fmt, False)
    V = np.array([[float('%.6E' % x) for x in v] for v in V])            # what nat keeps
    if fmt == 'stl' and not c20.separated(V, F, c20.tol(V, fmt)):
        return
    with open('in.nat', 'w') as f:                       # not the writer under test
        f.write('0 0\n%d %d\n' % (len(V), len(F)))
        for v in V:
            f.write('%r %r %r\n' % tuple(float(x) for x in v))
        for g in F + 1:
            f.write('%d %d %d %d\n' % tuple(int(x) for x in g))
    ctx.distinct(fmt, V, F)
    if fmt == 'dat' or rng.random() < .4:
        alias = str(rng.choice(c20.FORMATS[fmt][0]))
        name = 'out.' + fmt.upper() if fmt == 'dat' else str(rng.choice(['out.' + fmt, 'out.bin']))
        args = ['in.nat', '-o', name, '-ofmt', alias]
    else:
        name = 'out.' + fmt
        args = ['in.nat', '-o', name]
    ctx.stl = name
    ctx.sample = {'args': args}
    c23.cli(args)
    if ctx.check('command-line', os.path.isfile(name), '%r wrote no file' % args):
        judge(ctx, name, V, F, fmt, repr(args), 'command-line')
