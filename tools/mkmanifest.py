"""Writes properties.jsonl and MANIFEST.json from the property texts below (only the properties that have a check)."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
M = 'meshmagick/'
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': [M + f for f in files],
                          'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


p('C01', 'Mesh answers never depend on the history of the mesh object',
  'After any sequence of operations and queries, everything a mesh reports (face areas, normals, centers, classification, '
  'connectivities, boundaries, closedness, volumes, inertias, surface integrals, bounding boxes, edge statistics) equals what a '
  'mesh freshly built from its present vertices and faces reports. An operation applied to a mesh that has been queried '
  'before produces the same vertices and faces as the same operation applied to a fresh copy.',
  ['histories', 'inputs'],
  'Every sequence of public mesh operations (translate, rotate, scale, mirror, symmetrize, merge, heal_*, flip, triangulate, '
  'vertices/faces assignment...) interleaved with any queries, on any mesh.',
  'The tests call each operation once on one mesh and look at no query made before an operation: a stale cached value is only '
  'visible for particular query/operation orders.',
  ['mesh.py'],
  [('lazy property caches of Mesh and their invalidation', 'mesh.py: Mesh.__internals__, _remove_* methods, vertices/faces setters'),
   ('in place updates of cached values by transformations', 'mesh.py: Mesh.rotate, translate*, scale*, flip_normals')],
  [('cache', 'derived quantities kept after being computed once', 'mesh.py: Mesh.__internals__')],
  ['every public property and query of Mesh'])
p('C02', 'Per-face geometry, classification and bounding boxes are exact',
  'For every face of every mesh, the reported area, unit normal (following the vertex order), center and '
  'triangle/quadrangle classification are those of the planar polygon given by its vertices, whatever the mixture and order of '
  'triangles and quadrangles, the position, the scale and the numeric type of the input. Counts, bounding boxes and edge length '
  'statistics are those of the same vertices and faces; so are the figures of the summary and of the quality report that are printed.',
  ['inputs'], 'All meshes of planar faces: pure, mixed, single face, thousands of faces, tiny, huge or far from the origin.',
  'The tests evaluate areas and normals on one cylinder mesh and never a mesh of triangles only, of interleaved kinds or far away.',
  ['mesh.py'],
  [('face properties vectorised per kind of face', 'mesh.py: Mesh._faces_properties'),
   ('classification', 'mesh.py: Mesh._triangles_quadrangles'), ('bounding boxes', 'mesh.py: Mesh.axis_aligned_bbox, squared_axis_aligned_bbox'),
   ('edge statistics', 'mesh.py: Mesh._edges_stats'), ('reports', 'mesh.py: Mesh.__str__, Mesh.print_quality')], (), ['Mesh.faces_areas, faces_normals, faces_centers, ...'])
p('C03', 'Transformations are the documented affine maps, composed exactly',
  'Each rotation, translation and scaling moves every vertex by exactly the affine map it documents, leaves the faces alone and '
  'returns the rotation matrix it applied. A sequence of them is the composition of the maps, in order.',
  ['inputs', 'histories'], 'All sequences of transformations, all angles (tiny, multiples of a right angle, several turns), vectors and factors, all meshes.',
  'The tests apply one rotation or translation with one value and mostly check that it runs.',
  ['mesh.py', 'rotations.py'],
  [('rotation, translation and scale methods', 'mesh.py: Mesh.rotate, rotate_x/y/z, rotate_matrix, translate*, scale*'),
   ('rotation matrices', 'rotations.py: cardan_to_rotmat')])
p('C04', 'Conversions between rotation representations keep the rotation',
  'Converting a rotation between matrix, quaternion, axis-angle and Cardan angles, in any direction and any chain, denotes the same rotation. '
  'This holds for the identity, infinitesimal angles, half turns and gimbal lock as well.',
  ['inputs'], 'All rotations, in particular the singular ones of each representation.',
  'The tests use a handful of well conditioned rotations; each representation has singular points that need their own branch.',
  ['rotations.py'],
  [('conversion functions', 'rotations.py: every *_to_* function'), ('branches at singular points', 'rotations.py: rotmat_to_cardan, quat_to_axis_angle, rotmat_to_quat')])
p('C05', 'Plane distances, frames, intersections and edits are coherent',
  'A plane given by a normal and a scalar denotes the points x with n.x = c: signed distances, orthogonal projections, coordinates '
  'in the plane frame, and edge intersections are those of that set of points. Editing a plane (normal, scalar, flip, orientation) '
  'changes what it documents and keeps everything coherent.',
  ['inputs', 'histories'], 'All planes (axis aligned, oblique, any scalar), points, edges and sequences of edits.',
  'The tests only use planes through meshes in clip scenarios; the frame and angle methods have degenerate directions no test reaches.',
  ['mesh.py'], [('plane class', 'mesh.py: Plane'), ('normal setter and frame', 'mesh.py: Plane.normal, rotate_normal, get_edge_intersection, get_point_dist_wrt_plane, coord_in_plane')],
  [('normal, c, frame', 'the plane equation and its local axes', 'mesh.py: Plane')])
p('C06', 'Merging duplicate vertices moves nothing more than the tolerance',
  'Merging vertices maps every vertex to a kept vertex that is within the tolerance of it on every axis, merges all exact duplicates and all clusters '
  'narrower than the tolerance, and keeps apart vertices that differ by more than the tolerance. The returned index map, the '
  'faces rewritten with it and the kept coordinates are mutually consistent, and merging again changes nothing.',
  ['inputs'], 'All vertex clouds (no duplicate, all duplicates, shared coordinates, clusters), all tolerances, all meshes.',
  'One test merges one mesh; the algorithm compares sorted coordinates axis by axis and its errors need coincidences on some axes only.',
  ['tools.py', 'mesh.py'], [('duplicate merging', 'tools.py: merge_duplicate_rows'), ('application to the faces', 'mesh.py: Mesh.merge_duplicates')])
p('C07', 'Healing a mesh repairs its description and keeps its surface',
  'Removing unused vertices, rewriting triangles, removing degenerated faces, and the complete healing remove exactly the defects they target: the '
  'geometric faces that are not degenerate are all kept, with their shape and orientation (made consistent and, on closed meshes, outward by the complete healing). Afterwards no '
  'defect of that kind is left, and vertices referenced by faces are kept.',
  ['inputs', 'histories'], 'All meshes dirtied by any combination of unused vertices, duplicate vertices, badly written triangles, collapsed quads, slivers and reversed faces.',
  'The tests call each procedure on one file and check that it runs.',
  ['mesh.py'], [('healing procedures', 'mesh.py: Mesh.heal_mesh, heal_triangles, remove_unused_vertices, remove_degenerated_faces, merge_duplicates')])
p('C08', 'Healing the normals makes them consistent, outward on closed meshes',
  'After healing the normals, faces sharing an edge run along it in opposite directions on every orientable surface, and on a closed '
  'connected mesh all normals point outwards. Healing only reverses faces: vertices, and the set of faces up to orientation, are unchanged, and '
  'healing a healed mesh changes nothing.',
  ['inputs', 'histories'], 'All orientable meshes with any subset of reversed faces, anywhere in space, in one or several bodies.',
  'One test heals one mesh whose orientation is not checked afterwards; errors need particular reversal patterns, concave shapes or positions.',
  ['mesh.py'], [('propagation of the orientation and outward decision', 'mesh.py: Mesh.heal_normals')])
p('C09', 'Connectivities, boundaries and closedness are those of the faces',
  'The vertices adjacent to a vertex, the faces around a vertex, the faces adjacent to a face and the boundary loops a mesh reports are exactly those of its '
  'face list. A mesh is reported closed when, and only when, every edge belongs to two faces.',
  ['inputs', 'histories'], 'All meshes where an edge has at most two faces: closed, with holes, several bodies, isolated faces, unused vertices.',
  'The tests run the connectivity on one mesh and compare nothing.',
  ['mesh.py'], [('connectivity', 'mesh.py: Mesh._connectivity'), ('boundaries and closedness', 'mesh.py: Mesh.boundaries, nb_boundaries, is_mesh_closed')])
p('C10', 'Mirroring, symmetrizing and flipping give the exact mirror faces',
  'Mirroring by a plane replaces each face by its mirror image, keeping an outward closed mesh outward; symmetrizing keeps the original faces and adds the '
  'mirror image of each, oriented as the mirror of the surface, with vertices on the plane merged; flipping reverses each '
  'face. Mirroring or flipping twice gives back the original.',
  ['inputs', 'histories'], 'All planes (any direction and position), all meshes and sequences.',
  'The tests symmetrize one mesh by one coordinate plane and check that it runs.',
  ['mesh.py'], [('mirror, symmetrize, flip', 'mesh.py: Mesh.mirror, symmetrize, flip_normals')])
p('C11', 'Assembling, extracting, triangulating and copying conserve the faces',
  'The sum of meshes holds exactly the faces of its operands; an extraction holds exactly the selected faces, with the index of the vertices '
  'it kept; a triangulation replaces each quadrangle by triangles covering it with the same orientation and keeps the triangles. A copy is equal and '
  'independent, and no operand is modified.',
  ['inputs', 'histories'], 'All pairs of meshes, all selections of faces, all mixtures of triangles and quadrangles.',
  'The tests build one sum and one extraction without comparing faces; independence of copies is never tested.',
  ['mesh.py'], [('assembly and extraction', 'mesh.py: Mesh.__add__, extract_faces, copy'), ('triangulation', 'mesh.py: Mesh.triangulate_quadrangles')])
p('C12', 'Clipping by a plane keeps exactly the part under the plane',
  'The clipped mesh covers exactly the part of the surface that lies under the plane, with the orientation of the original, for any plane and any '
  'mesh; faces entirely under the plane come back untouched and nothing sticks out above it. A mesh that the plane does not cross is refused, '
  'saying on which side it is, and the source mesh is not modified.',
  ['inputs'], 'All planes (away from, through, or within the tolerance of vertices, edges and faces) and all meshes, closed or not.',
  'Each way a plane can cut a triangle or a quadrangle is a separate case in the code (about 25); the tests clip two meshes by two planes and compare nothing with the true section.',
  ['mesh_clipper.py'], [('partition of vertices and faces', 'mesh_clipper.py: MeshClipper._vertices_positions_wrt_plane, _partition_mesh'),
                        ('clipping table', 'mesh_clipper.py: MeshClipper._clip_crown_by_plane')])
p('C13', 'The boundaries of a clipped mesh are the section by the plane',
  'Clipping reports one closed polygon for each loop of the intersection of the surface with the plane and one open line for each open piece; they lie on the plane, follow '
  'the free edges of the clipped mesh and, on outward meshes, turn so that the material is on their left seen from the normal side. When closed '
  'boundaries are demanded, the clipping fails exactly when an open line exists.',
  ['inputs'], 'All transversal sections: one or several loops, nested loops, open surfaces, planes through vertices.',
  'The tests never look at the polygons; the number and the nesting of loops depend on the shape.',
  ['mesh_clipper.py'], [('chaining of section edges', 'mesh_clipper.py: MeshClipper._clip_crown_by_plane'), ('accessors', 'mesh_clipper.py: closed_polygons, open_lines')])
p('C14', 'Volume and inertia of the enclosed medium are exact',
  'The volume, mass, centre of gravity and inertia matrix a mesh reports for the homogeneous medium it encloses are those of the polyhedron, linear in the '
  'density, negative volume meaning inward orientation. They are covariant under rigid motions of the mesh.',
  ['inputs'], 'All closed meshes with planar faces, convex or not, several bodies, cavities, any position and scale, all densities.',
  'The tests use axis-aligned or centred shapes whose products of inertia vanish.',
  ['mesh.py', 'inertia.py'], [('surface integrals', 'mesh.py: Mesh._compute_faces_integrals, _compute_volume'), ('plain inertia', 'mesh.py: Mesh.eval_plain_mesh_inertias')])
p('C15', 'Surface integrals and thin shell inertia are exact',
  'The mass, centre of gravity and inertia matrix a mesh reports for a shell of given thickness and density, and every polynomial '
  'integral it reports face by face, are those of its faces, closed or not, whatever the orientation and the position.',
  ['inputs'], 'All meshes of planar faces, all densities and thicknesses.',
  'The test compares one symmetric shell, where the products of inertia vanish.',
  ['mesh.py'], [('face integrals', 'mesh.py: Mesh._compute_faces_integrals'), ('shell inertia', 'mesh.py: Mesh.eval_shell_mesh_inertias')])
p('C16', 'Rigid body inertia: parallel axis transport and shape catalogue are exact',
  'Moving the reduction point of the inertia of a rigid body, by whatever route, gives its inertia about the new point and keeps mass and '
  'centre of gravity. Each shape of the catalogue has the mass and the inertia about its centre of gravity of the shape it names, linear in the density.',
  ['inputs', 'histories'], 'All bodies, all sequences of reduction points, all dimensions of every catalogue shape.',
  'The tests move inertias between two points along one route and check a few shapes for a single size.',
  ['inertia.py'], [('transport', 'inertia.py: RigidBodyInertia.reduction_point, at_cog, shift_at_cog'), ('catalogue', 'inertia.py: shape functions')],
  [('reduction point, cog, matrix', 'what the stored matrix refers to', 'inertia.py: RigidBodyInertia')])
p('C17', 'Hydrostatic data are the exact integrals over the wetted part',
  'For a closed mesh crossing the water plane, under any correction rotation and rise, the displaced volume and mass, buoyancy centre, waterplane area and centre, wetted '
  'area, waterline and submerged lengths, draught, metacentric radii and heights and inertia of the immersed volume are those of the wetted part, in the documented frames, and the report '
  'states the same numbers. A mesh out of the water, under it, or open at the waterline is refused; arguments are not modified.',
  ['inputs', 'configurations'], 'All floating meshes, attitudes, heights, densities, centres of gravity and options.',
  'The tests compute one file in one position and compare nothing with an independent value.',
  ['hydrostatics.py', 'mesh_clipper.py', 'mesh.py'], [('hydrostatic computation', 'hydrostatics.py: compute_hydrostatics'), ('report', 'hydrostatics.py: get_hydrostatic_report')])
p('C18', 'Hydrostatic stiffness is the response to real heave, roll and pitch',
  'The stiffness matrix, about the vertical of the centre of gravity or about the origin as asked, is symmetric and equals the waterplane moments, and it equals the change '
  'of hydrostatic force and moments when the body is really moved by small heave, roll and pitch. The matrices at two reference points are '
  'related by the change of reference point, and scale with density and gravity.',
  ['inputs', 'configurations'], 'All floating closed meshes (unsymmetric ones included), attitudes, centres of gravity and reference points.',
  'No test looks at a stiffness coefficient; the coupling terms vanish on symmetric hulls.',
  ['hydrostatics.py'], [('waterplane moments and assembly', 'hydrostatics.py: compute_hydrostatics')])

exec(open(os.path.join(VERIF, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(VERIF, 'tools', 'props2.py')) else None

NOT_APPLICABLE = []


def main():
    checks = []
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for q in P:
            have = os.path.exists(os.path.join(VERIF, 'mon', 'checks', q['id'].lower() + '.py'))
            na = [n for n in NOT_APPLICABLE if n['property'] == q['id']]
            if not have and not na:
                continue
            f.write(json.dumps(q) + '\n')
            if have:
                mod = importlib.import_module('mon.checks.' + q['id'].lower())
                checks.append({'property': q['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % q['id'],
                               'thorough_cmd': 'python3 run.py %s --tier thorough' % q['id'],
                               'technique': 'runtime monitoring: online oracles over instrumented executions of generated workloads',
                               'level': 'exploration',
                               'level_note': 'Held on every execution observed, no claim beyond. ' + ' '.join(mod.ASSUMPTIONS)})
    man = {'version': 1, 'setup_cmd': 'python3 tools/selfcheck.py', 'checks': checks, 'not_applicable': NOT_APPLICABLE,
           'notes': 'Known findings: known_findings.txt. No hooks in /repo: the monitors observe public behaviour.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks')


if __name__ == '__main__':
    main()
