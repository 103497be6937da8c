p('C19', 'Equilibrium solvers return positions in hydrostatic equilibrium, or say so',
  'The vertical equilibrium displaces the requested mass within the tolerance; the full equilibrium furthermore has no net roll and pitch moments about the '
  'centre of gravity. The returned rise and rotation are what moves the original mesh to that position, and the input mesh is not modified. A '
  'displacement larger than the hull allows is announced by a warning and leaves the hull just immersed, and the solvers always end.',
  ['inputs', 'configurations'], 'All floating hulls, displacements feasible or not, initial attitudes (even out of the water), centres of gravity, tolerances.',
  'The iterations of the solvers depend on hull, target and start; the tests run one hull and only check that it ends.',
  ['hydrostatics.py'], [('vertical equilibrium iterations', 'hydrostatics.py: displacement_equilibrium'), ('full equilibrium iterations', 'hydrostatics.py: full_equilibrium')],
  [('z_corr, rotmat_corr', 'position reached by the iterations', 'hydrostatics.py: full_equilibrium')])
p('C20', 'Writing a mesh then reading it back gives the same mesh',
  'For every format that is written and read, under every name of the format, reading back a written mesh gives the same vertices (within the digits the format holds) and '
  'the same faces, in the same order and orientation, triangles staying triangles and quadrangles quadrangles; formats storing panels one by one give the same panels. '
  'Converting through a chain of formats keeps the mesh.',
  ['inputs'], 'All meshes (mixed, only triangles, only quadrangles, one face, very many faces, tiny and large coordinates of both signs) and every chain of formats.',
  'The tests write one mesh in each format and compare little; field widths and index tables depend on the size and the kind of the mesh.',
  ['mmio.py'], [('writers', 'mmio.py: write_*'), ('readers', 'mmio.py: load_*'), ('dispatch', 'mmio.py: load_mesh, write_mesh, extension_dict')])
p('C21', 'Readers give exactly the mesh that the file describes',
  'A file written by another program according to the layout of its format is read as exactly the polygons it describes, with their orientation, whatever liberties it takes: spacing, number '
  'notation, comments, headers, numbering of the nodes, several sections, ASCII or binary encoding, elements of other types. The same ship in several formats '
  'gives the same surface.',
  ['inputs'], 'All valid files of every readable format.',
  'The tests read one file of each format, written by one program, and mostly check that it is read.',
  ['mmio.py'], [('one reader per format', 'mmio.py: load_RAD, load_HST, load_DAT, load_INP, load_TEC, load_VTU, load_VTP, load_VTK, load_OBJ, load_STL, load_NAT, load_GDF, load_MAR, load_MSH, load_MED, load_WRL, load_NEM, load_PNL')])
p('C22', 'Damaged files and impossible writes are refused, never turned into a wrong mesh',
  'Reading a file that is missing, empty, truncated (in the formats that announce their size), of another kind, holding numbers that cannot be read or using features of its format that are not supported raises an exception, or gives '
  'the complete mesh; it never returns a partial or corrupted mesh, nor runs endlessly. Unknown formats, formats without a writer and destinations that cannot be written raise an '
  'exception and leave existing files as they were.',
  ['inputs', 'fault_sequences'], 'All points where a file can be cut, all corruptions of a coordinate, all destinations.',
  'No test reads a damaged file.',
  ['mmio.py'], [('readers', 'mmio.py: load_*'), ('dispatch and refusals', 'mmio.py: _check_file, load_mesh, write_mesh, write_RAD/INP/MSH/MED/WRL')])
p('C23', 'One command line is the documented sequence of operations',
  'The mesh written by a command line is the input mesh transformed by the requested options, in the fixed documented order, with angles, vectors, planes and factors as given; options not given do nothing. '
  'Input files are never modified, without an output file nothing is written, and a wrong command line or an unreadable file ends with a nonzero status and writes nothing.',
  ['inputs', 'configurations'], 'All combinations of options, in any order on the line, long or short names, planes by key, index or scalars, all formats.',
  'The tests never run the command line; the combinations of options are countless.',
  ['cli.py', 'mmio.py', 'mesh.py', 'mesh_clipper.py'], [('option parsing', 'cli.py: parser'), ('sequence of operations', 'cli.py: main')])
p('C24', 'Command line reports state the computed figures for the requested options',
  'The figures printed for the hydrostatics, the plain and shell inertias, the mesh information and the mediums are those of the mesh at the end of the command line, for the requested displacement, centre of gravity, density, '
  'gravity, thickness, perpendiculars and reference, with the documented defaults. The report file holds the printed report and the mesh written is the one reported, in its equilibrium position.',
  ['inputs', 'configurations'], 'All meshes and all combinations of the hydrostatic and inertia options.',
  'The tests never run the command line nor read a report; every combination of hydrostatic options is a separate branch.',
  ['cli.py', 'hydrostatics.py', 'densities.py', 'mesh.py'], [('hydrostatic options', 'cli.py: main, args.hydrostatics'), ('inertia options', 'cli.py: main, args.plain_inertia, args.shell_inertia'),
   ('report', 'hydrostatics.py: get_hydrostatic_report'), ('densities', 'densities.py: get_density')])
p('C25', 'Queries, computations and writers never modify what they are given',
  'No query, computation or writer modifies the vertices or faces of the mesh, the arrays, planes, inertias or lists it is given; functions called again with the same arguments give the same results, and '
  'objects handed to a constructor, a copy or a sum are not changed by later operations on the other object.',
  ['inputs', 'histories'], 'All public functions and queries, all meshes, repeated and interleaved calls.',
  'The tests do not compare arguments before and after the calls, and hardly call anything twice.',
  ['mesh.py', 'mesh_clipper.py', 'mmio.py', 'hydrostatics.py', 'inertia.py', 'rotations.py', 'tools.py'],
  [('queries and computations', 'mesh.py, mesh_clipper.py, hydrostatics.py, inertia.py, rotations.py, tools.py: public functions'), ('writers', 'mmio.py: write_*')])
p('C26', 'The stateful Hydrostatics class answers for its present state',
  'Whatever the sequence of displacement settings, equilibrium searches, changes of density, gravity, mass or centre of gravity and resets, the hydrostatic data of a Hydrostatics object are those of its present '
  'mesh, density, gravity and centre of gravity, as a newly built object would report. Reset brings back the initial state, and a returned equilibrium balances weight and buoyancy in force and moments.',
  ['inputs', 'histories'], 'All floating hulls and all sequences of operations on a Hydrostatics object.',
  'The tests of this class run one sequence on one hull; stale or aliased state is only seen by other sequences.',
  ['hydrostatics_old.py'], [('hydrostatic computation', 'hydrostatics_old.py: Hydrostatics.update'), ('equilibrium', 'hydrostatics_old.py: Hydrostatics.equilibrate, set_displacement'), ('reset', 'hydrostatics_old.py: Hydrostatics.reset')],
  [('hs_data, gravity center, mesh', 'state of the object', 'hydrostatics_old.py: Hydrostatics')])
p('C27', 'The viewer shows what it is given, answers its keys and leaves everything as it was',
  'The window opened for a mesh (method show, or the command line option, at the end of its transformations) shows all its faces and nothing else; opened for hydrostatics it adds the origin, the centres of gravity and '
  'buoyancy with lines to them, and weight, buoyancy and additional forces as arrows at their points, all to one scale. Keys n, b, h, g show and remove the normals (one arrow at each face centre), the axes box around the mesh, '
  'the plane z = 0 and the three planes of the axes; x saves the main object in mmviewer_save.vtp, c the view in screenshot.png, q and e close. Colours, representations and scales asked for are used. '
  'After it is closed, mesh, hydrostatics and viewer data are unchanged and can be used, copied and shown again.',
  ['inputs', 'histories'], 'All meshes, bodies, forces and sequences of keys.',
  'The tests never open the viewer: it needs a display and somebody in front of it.',
  ['MMviewer.py', 'mesh.py', 'hydrostatics_old.py', 'cli.py'], [('scene and keys', 'MMviewer.py: MMViewer'), ('conversion of the mesh', 'mesh.py: Mesh._vtk_polydata, Mesh.show'), ('hydrostatics', 'hydrostatics_old.py: Hydrostatics.show'),
   ('option', 'cli.py: main, args.show')])
p('C28', 'The files written are valid files of their format and describe the whole mesh',
  'A mesh written in any writable format (write_mesh, the writers, quick_save, the command line) gives a file that a strict reader of the format accepts and that describes that mesh and nothing else: header and counts right, every section '
  'opened, closed and in order, nodes and elements numbered without gap or repetition, element types fitting their number of nodes, symmetry flags saying that the mesh is whole, facet normals unit and '
  'agreeing with the vertices, nothing left over from an earlier file. A file that cannot be written completely is an error, and a format that cannot be written is refused and leaves no file.',
  ['inputs'], 'All meshes, all writable formats, all sizes, new and existing files, full disks.',
  'The tests read back with the readers of meshmagick, which skip headers, numbers and terminators: what the hydrodynamic codes read in them is never looked at.',
  ['mmio.py', 'mesh.py', 'cli.py'], [('writers', 'mmio.py: write_*'), ('choice of the writer', 'mmio.py: write_mesh, extension_dict; cli.py: main, args.outfilename'), ('quick save', 'mesh.py: Mesh.quick_save')])

p('C29', 'Results depend on the arguments only, not on the rest of the process or its surroundings',
  'The same call on equal arguments gives the same answers and writes the same files, whatever the process did before with other objects (built, modified through their public attributes, default arguments '
  'included, queried, destroyed), after calls that failed or were interrupted, in whichever thread and beside whichever other threads working on objects of their own, and whatever the working directory, '
  'hash seed, locale, time zone, encoding of the output, warning filters, and error and printing settings of numpy. Calls leave those settings as they found them. A query interrupted at any point '
  'leaves the mesh as it was, answering as a new one. Objects do not follow the arrays they were built from, nor results the meshes they were computed from: what is done with those '
  'afterwards changes no answer.',
  ['inputs', 'histories', 'schedules', 'faults'], 'All operations, all earlier uses of the library in the process, all interruption points, all thread schedules, all settings of a process.',
  'Tests run each function once, in one order, in one process and one environment.',
  ['mesh.py', 'mesh_clipper.py', 'hydrostatics.py', 'mmio.py', 'cli.py', 'inertia.py', 'hydrostatics_old.py'],
  [('default arguments', 'mesh_clipper.py: MeshClipper.__init__; hydrostatics.py: compute_hydrostatics'), ('caches of queries', 'mesh.py: Mesh.__internals__'), ('module state', 'mmio.py: extension_dict; densities.py; cli.py: parser')],
  [('__internals__', 'derived data kept by a mesh', 'mesh.py: Mesh')])
