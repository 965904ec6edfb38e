prop('C01', 'What is stored for an entity is what is read back',
     'After storing a vertex, tetrahedron, prism, triangle, quadrilateral or edge through the API, one by one or as a whole array, reading '
     'that entity back returns the same coordinates or vertices, reference and flags (a negatively oriented tetrahedron or 2D triangle is '
     'returned with two vertices exchanged, tetrahedron references as absolute values). A store with an index above the declared number '
     'of entities is refused and changes nothing, nothing else in the mesh is modified by a store or a read, and the enumerating getters '
     'visit every entity once before starting again.',
     ['inputs', 'histories'], 'every mesh size, entity index, coordinate, reference and sequence of stores and reads',
     'tests store and read a handful of entities of small meshes; index arithmetic, frame conditions and orientation handling must hold for '
     'every index and every mesh',
     [A3, A2, AS], [('single and array setters and getters', A3 + ':MMG3D_Set_vertex..MMG3D_Get_edges'),
                    ('2D setters and getters', A2 + ':MMG2D_Set_vertex..MMG2D_Get_edges'),
                    ('surface setters and getters', AS + ':MMGS_Set_vertex..MMGS_Get_edges')],
     'every setter/getter of every entity kind in the three libraries under contract; all obligations discharged for unbounded meshes; exact real '
     'arithmetic for the orientation test')
prop('C02', 'Solution values stored per vertex are the values returned',
     'Scalar, vector and tensor values stored in a solution field, one vertex at a time, as a whole array, or in the i-th of several fields, are '
     'returned unchanged by the corresponding getters, stored at the place where the rest of the library reads them (size times vertex index). '
     'A store at a position outside 1..number of vertices is refused, reported as a failure and changes nothing; no other value is modified.',
     ['inputs', 'histories'], 'every field size and type, position and value', 'tests write one scalar field; the layout must agree for every type, '
     'dimension and index, including positions no test uses', [A3, A2, AS],
     [('solution setters and getters', A3 + ':MMG3D_Set_scalarSol..MMG3D_Get_ithSols_inSolsAtVertices'),
      ('2D', A2 + ':MMG2D_Set_scalarSol..'), ('surface', AS + ':MMGS_Set_scalarSol..')],
     'all setters/getters of all three libraries under contract, all obligations discharged')
prop('C03', 'Attribute setters change exactly the named attribute',
     'Marking or unmarking a vertex, edge, triangle or tetrahedron as corner, ridge, required or parallel changes exactly that attribute of exactly '
     'the named entities: every other attribute and every other entity keeps its value. Normals given at vertices are returned unchanged.',
     ['inputs', 'histories'], 'every mesh, entity index, list of indices and previous attribute value',
     'tests check that an option has an effect, not that the other attribute bits and entities are preserved for all prior values', [A3, A2, AS],
     [('attribute setters', A3 + ':MMG3D_Set_corner..MMG3D_Get_normalAtVertex'), ('2D', A2 + ':MMG2D_Set_corner..MMG2D_Set_parallelEdge'),
      ('surface', AS + ':MMGS_Set_corner..MMGS_Get_normalAtVertex')],
     'all attribute setters under contract, all obligations discharged (16-bit tags exact)')
prop('C04', 'Parameters reach the remesher unaltered and bad requests are refused',
     'Setting an integer or real parameter, a local size parameter, a material or a level-set base reference through the API stores exactly '
     'that value (with the documented normalisation: gradations as logarithms, the detection angle as the cosine of the angle clamped to '
     '[0,180] degrees, nofem negated, non-positive Hausdorff values and out-of-range coordinate regularisation values rejected) in the field the '
     'remesher reads, and changes no other parameter. Parameter codes a library does not support are refused with return value 0 and change '
     'nothing. Local parameters, materials and base references are appended within the declared capacity, updated in place when already known, '
     'refused when the table is full or the value is invalid. Initialisation gives every parameter its documented default.',
     ['inputs', 'configurations', 'histories'], 'every parameter code, value and previous parameter state',
     'tests run a few option combinations end to end; a parameter stored in the wrong field or truncated rarely changes such a run', [A3, A2, AS, 'src/common/libtools.c', 'src/common/API_functions.c'],
     [('parameter setters/getters', A3 + ':MMG3D_Set_iparameter, MMG3D_Get_iparameter, MMG3D_Set_dparameter, MMG3D_Set_localParameter'),
      ('2D', A2 + ':MMG2D_Set_iparameter..'), ('surface', AS + ':MMGS_Set_iparameter..'),
      ('materials and base references', 'src/common/libtools.c:MMG5_Set_multiMat, MMG5_Set_lsBaseReference'), ('defaults', 'src/common/API_functions.c:MMG5_Init_parameters')],
     'one contract per parameter code and library; all obligations discharged; log and cos uninterpreted; sizing a table assumes no previous table')

prop('C05', 'The Fortran interface is the C interface',
     'Each Fortran entry point, in each of its four spellings (upper case, lower case, one and two trailing underscores), calls the C function of '
     'the same name exactly once with the caller\'s values in the order of the arguments (opaque handles and scalars by value, arrays and output '
     'variables by address, names as the NUL-terminated copy of the first len characters), stores the result of that function in the last '
     'argument, releases what it allocated and modifies nothing else.',
     ['inputs', 'environments'], 'every argument value, name and name length, for every entry point and compiler naming convention',
     'the Fortran tests (run only where a Fortran compiler exists) use a few dozen of the ~350 entry points with one naming convention',
     [A for fs in (('src/mmg3d/API_functionsf_3d.c', 'src/mmg3d/libmmg3d_toolsf.c', 'src/mmg3d/libmmg3df.c', 'src/mmg2d/API_functionsf_2d.c', 'src/mmg2d/libmmg2d_toolsf.c',
                    'src/mmg2d/libmmg2df.c', 'src/mmgs/API_functionsf_s.c', 'src/mmgs/libmmgs_toolsf.c', 'src/mmgs/libmmgsf.c', 'src/common/API_functionsf.c'),) for A in fs],
     [('3D wrappers', 'src/mmg3d/API_functionsf_3d.c'), ('2D wrappers', 'src/mmg2d/API_functionsf_2d.c'), ('surface wrappers', 'src/mmgs/API_functionsf_s.c'),
      ('naming macro', 'src/common/mmgcommon_private.h:FORTRAN_NAME')],
     'a contract per entry point, derived from the C prototype: recorded call, argument for argument; all obligations discharged for all four '
     'spellings; the 12 vararg wrappers are outside')
prop('C06', 'Splitting a tetrahedron is conforming and keeps the boundary data',
     'Whatever edges of a tetrahedron are marked for refinement, the tetrahedra created by the split pattern chosen by the code tile the original one '
     'exactly (same orientation, no overlap, no gap, new vertices on the marked edges only), cut every marked edge and no other, and cut each face in a way '
     'that depends only on its marked edges and on the order of its vertex numbers, so that a neighbour cuts it the same way. Every child face '
     'or edge lying on a face or edge of the original tetrahedron inherits its reference, tag and orientation, every edge created inside a face carries '
     'the tag of that face, and no interior face or edge carries any data. References and marks of the element are inherited. The simulation that '
     'accepts or refuses a split evaluates exactly the tetrahedra the split creates and accepts only if all have a positive volume.',
     ['inputs'], 'every combination of marked edges, vertex numbering, coordinates, references, tags and orientations',
     'tests refine meshes where a missing tag or a non-conforming diagonal on a rare pattern goes unnoticed',
     ['src/mmg3d/split_3d.c', 'src/common/quality.c'],
     [('split patterns', 'src/mmg3d/split_3d.c:MMG5_split1..MMG5_split6, MMG5_split4bar, MMG5_split1b_eltspl'),
      ('simulations', 'src/mmg3d/split_3d.c:MMG3D_split1_sim..MMG3D_split6_sim')],
     'one contract per pattern, flag and diagonal case; children proved against exact combinatorics of the reference simplex, also when the element or '
     'boundary arrays move at the first or last allocation; MMG3D_newElt assumed to return an unused number')

prop('C07', 'Splitting a triangle is conforming and keeps edge data and adjacency',
     'Splitting a triangle of a 2D or surface mesh, whatever edges are marked, replaces it by triangles that tile it exactly with the same orientation, cut '
     'at every marked edge and no other, using the new vertices on these edges (or the interior point, for the split at a barycentre). Every piece of an edge of the '
     'original triangle keeps the reference and tag of that edge, the edges created inside carry no reference and no '
     'tag, the reference of the triangle is inherited, nothing else in the mesh changes, and where the adjacency is '
     'maintained it stays reciprocal. This also holds when the arrays have to be enlarged during the split. The simulation of a split examines exactly the triangles the '
     'split creates and accepts it only if none is degenerate or flipped.',
     ['inputs', 'histories'], 'every combination of marked edges, coordinates, references, tags and neighbours, and arrays full or not',
     'tests refine a few meshes and do not look at the tags, references or adjacency of the pieces',
     ['src/mmg2d/split_2d.c', 'src/mmgs/split_s.c', 'src/common/tools.c'],
     [('2D patterns', 'src/mmg2d/split_2d.c:MMG2D_split1, MMG2D_split2, MMG2D_split3, MMG2D_split1b, MMG2D_splitbar'),
      ('surface patterns', 'src/mmgs/split_s.c:MMGS_split1, MMGS_split2, MMGS_split3, split1b'),
      ('simulations', 'MMG2D_split1_sim, MMG2D_split2_sim, MMG2D_split3_sim, MMGS_split1_sim, MMG5_split2_sim, MMGS_split3_sim')],
     'one contract per pattern, flag and set of neighbours; children proved against exact combinatorics of the reference simplex; newElt assumed to return an unused number')

prop('C08', 'No point or element number is handed out twice',
     'The points and elements created while remeshing get a number that no other point or element uses and that lies inside the array; a creation is refused only when every slot '
     'of the array is in use. The new point or element starts with clean links and marks (coordinates and tag as asked, a surface record of its own '
     'for a surface point). Deleting a point or element invalidates it, clears its adjacency, makes its number the next one handed out and keeps the counters at or '
     'above the greatest number in use, exactly at it when the last one is deleted. Creations and deletions touch no other point or element. '
     'The list of free numbers stays consistent under any history of creations, deletions and enlargements of the arrays, starting from the allocation of the mesh.',
     ['histories'], 'every reachable state of the list of free slots, hence every sequence of creations, deletions and array enlargements',
     'tests only meet the histories of a few remeshings, and a slot lost or used twice rarely shows in the final mesh',
     ['src/mmg3d/zaldy_3d.c', 'src/mmg2d/zaldy_2d.c', 'src/mmgs/zaldy_s.c', 'src/mmg3d/libmmg3d_private.h', 'src/mmg2d/libmmg2d_private.h', 'src/mmgs/libmmgs_private.h'],
     [('points', 'MMG3D_newPt, MMG3D_delPt, MMG2D_newPt, MMG2D_delPt, MMGS_newPt, MMGS_delPt'), ('elements', 'MMG3D_newElt, MMG3D_delElt, MMG2D_newElt, MMG2D_delElt, MMGS_newElt, MMGS_delElt'),
      ('allocation', 'MMG3D_setMeshSize_alloc, MMG2D_setMeshSize_alloc, MMGS_setMeshSize_alloc'), ('enlargement', 'MMG3D_TETRA_REALLOC, MMG2D_TRIA_REALLOC, MMGS_TRIA_REALLOC (checked in C06 and C07 where they are expanded)')],
     'invariant of the free list with ghost ranks and predecessors, proved established by the allocation and preserved by every operation; an element taken from the list is filled before the next deletion')

prop('C09', 'Sizes keep their scale and stay between hmin and hmax',
     'Normalising the input brings every used vertex into the unit box by one translation and one scale, and divides every length (user hmin, hmax, Hausdorff distance, level, constant '
     'size, local parameters, level-set or displacement values, metric) by that same scale; the inverse operation multiplies exactly the same quantities back, so that coordinates, sizes and user '
     'parameters come back in the units they were given and bounds that were not given are forgotten again. The sizes asked for are truncated between hmin and hmax: no size, in no direction, '
     'ends outside the bounds, a size inside them is kept, vertices without a size get hmax, bounds given by the user are never altered, the others are chosen so that hmin is at most hmax and no '
     'given size is cut. A size that is not positive or a negative user bound is refused, each time. A constant size is stored at every used vertex exactly, or refused if it contradicts the bounds.',
     ['inputs', 'configurations'], 'every mesh, metric, field and combination of given and missing bounds', 'tests run a few meshes with default or mild bounds and do not compare the sizes or the coordinates brought back',
     ['src/common/scalem.c', 'src/common/API_functions.c', 'src/mmg3d/libmmg3d_tools.c', 'src/mmg2d/libmmg2d_tools.c', 'src/mmgs/libmmgs_tools.c'],
     [('normalisation', 'src/common/scalem.c:MMG5_boundingBox, MMG5_scale_meshAndSol, MMG5_scaleMesh, MMG5_unscaleMesh'),
      ('truncation', 'src/common/scalem.c:MMG5_solTruncature_iso, MMG5_2dSolTruncature_ani, MMG5_3dSolTruncature_ani, MMG5_truncate_met3d, MMG5_check_hminhmax'),
      ('constant size', 'MMG5_Compute_constantSize, MMG5_Set_constantSize, MMG3D_Set_constantSize, MMG2D_Set_constantSize, MMGS_Set_constantSize')],
     'a contract per function with loop invariants for the reductions; real arithmetic; the eigen decomposition is an uninterpreted function of the tensor (trusted)')

prop('C10', 'Material references across the level-set follow the map of the user',
     'The material map given by the user is looked up exactly: a reference is split if and only if the map (or, without a map, the default) says so, with the two references the map gives for it, and '
     'a reference found on either side leads back to the reference it came from; a reference that is not in the map or is ambiguous is refused or reported. When the mesh is cut along the level-set, every element '
     'gets the reference of the side on which its vertices that are off the level-set lie, elements that are not split keep theirs, and the edges and vertices on the level-set - and only these - '
     'get the reference of the level-set asked by the user and the mark of the interface. This holds for the cut of a volume and for the cut of the boundary surface only. Before a new '
     'cut, every reference is reset to its initial value and the marks of a previous level-set are removed, and nothing else is touched.',
     ['inputs', 'configurations'], 'every material map, reference, sign pattern of the level-set and number of elements', 'tests cut a few meshes with one or two materials and do not look at the references of the edges and vertices',
     ['src/common/mmg2.c', 'src/mmg3d/mmg3d2.c', 'src/mmg3d/mmg3d2s.c'],
     [('map', 'src/common/mmg2.c:MMG5_MultiMat_init, MMG5_isSplit, MMG5_getStartRef, MMG5_isLevelSet, MMG5_isNotSplit'),
      ('references', 'src/common/mmg2.c:MMG5_setref_ls, MMG5_resetRef_ls, MMG5_setref_lssurf, MMG5_resetRef_lssurf; src/mmg3d/mmg3d2.c:MMG3D_setref_ls, MMG3D_resetRef_ls; src/mmg3d/mmg3d2s.c:MMG3D_setref_lssurf, MMG3D_resetRef_lssurf'),
      ('base references', 'src/common/mmg2.c:MMG5_isbr')],
     'a contract per function with loop invariants over the elements and over the map; the table of a map with arbitrarily many materials is covered by induction; one known finding (MMG5_isNotSplit)')

prop('C11', 'The delivered mesh is the remeshed mesh without holes',
     'When remeshing ends, the entities that are still in use are delivered with consecutive numbers and in their order, and nothing else changes: every used vertex keeps its coordinates, reference and '
     'marks, every used element its reference and marks and - through the new numbers - its vertices; the neighbour relation, the prisms and quadrilaterals, the edges and every component of the metric, '
     'level-set or displacement follow their entity to its new place; the counts of entities and of values agree with what is stored. Unused entities disappear, numbers used as scratch are '
     'cleared, and the lists of free entities start after the last one delivered and stay inside the arrays, so that the same mesh can be remeshed again.',
     ['inputs', 'histories'], 'every pattern of holes left by the remeshing, any number of entities and components', 'tests run to the end and do not compare the delivered arrays with those before packing',
     ['src/mmg3d/libmmg3d.c', 'src/mmg2d/hash_2d.c', 'src/mmgs/libmmgs.c'],
     [('3D', 'src/mmg3d/libmmg3d.c:MMG3D_packMesh, MMG3D_mark_packedPoints, MMG3D_pack_tetra, MMG3D_pack_tetraAndAdja, MMG3D_pack_prismsAndQuads, MMG3D_pack_sol, MMG3D_pack_pointArray, MMG3D_update_eltsVertices'),
      ('2D', 'src/mmg2d/hash_2d.c:MMG2D_pack (bounded)'), ('surface', 'src/mmgs/libmmgs.c:MMGS_packMesh (bounded)')],
     'a contract per 3D function with loop invariants over a ghost rank function (its lemmas are proved by induction); the 2D and surface versions are single functions of 250 lines, evaluated on executions only')


prop('C12', 'Edge and face hash tables are exact maps',
     'The tables that tell whether an edge or a face was already met, and which point, reference, tags or element belongs to it, behave as exact maps for every history of insertions, however the keys '
     'collide and whenever a table has to grow: what is stored under the two ends of an edge (the three vertices of a face), given in any order, is what a later query, update or addition of tags finds; a key that was '
     'never stored is reported as absent; storing a key that is already there stores nothing twice; and no operation changes the data stored under another key. A growing table keeps every entry.',
     ['inputs', 'histories'], 'every history of insertions, every pattern of collisions, every growth', 'tests use the tables through the remeshing, on meshes where chains are short and tables never grow',
     ['src/common/hash.c', 'src/mmg3d/hash_3d.c'],
     [('edges', 'src/common/hash.c:MMG5_hashNew, MMG5_hashEdge, MMG5_hashEdgeTag, MMG5_hashUpdate, MMG5_hashGet'),
      ('faces', 'src/common/hash.c:MMG5_hashFace; src/mmg3d/hash_3d.c:MMG5_hashGetFace'),
      ('geometric edges', 'src/mmg3d/hash_3d.c:MMG5_hNew, MMG5_hEdge, MMG5_hGet, MMG5_hTag')],
     'a representation invariant over ghost functions (bucket, rank, last cell of a bucket, cell at a rank, cell of a key), established by the creation, required and re-established by every operation')