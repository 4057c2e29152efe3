"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Mesh cells form a closed, duplicate-free simplicial complex",
  "Building a mesh from a simplicial mesh file stores each cell at the position given by its own id, and creates exactly one cell for every vertex, edge, triangle and tetrahedron that is an input element or a face of one. Every cell lists, for each lower dimension, the ids of precisely its own vertices, edges and faces (edges and facets listed in the reference order, the i-th facet being the one opposite to the i-th vertex; its own id at its own dimension). Physical tags given in the file are attached to exactly the corresponding cells, and no other cell carries a tag.",
  ["inputs"], "all conforming simplicial meshes of dimension 1, 2 and 3 with any physical tagging of cells and boundary entities",
  "Tests build a few structured gmsh meshes and only count entities or look at projection errors; a wrong or duplicated sub-entity for one local vertex order never shows.",
  ["src/mesh/mesh.py", "src/mesh/mesh_cell.py"],
  [("recursive insertion of sub-entities keyed by vertex id", "src/mesh/mesh.py insert_*_cell, create_*_cells"), ("sub-cell id tables", "src/mesh/mesh_cell.py set_sub_cells_ids")],
  [("cells", "array of mesh cells indexed by id", "src/mesh/mesh.py")], ["mesh.cells", "cell.sub_cells_ids", "cell.material_id"])

p("C02", "Degree-of-freedom numbering is a gap-free partition by mesh entity",
  "For any space the global degrees of freedom are 0..n-1: each mesh entity of the space owns a block of the same size as every other entity of its dimension, blocks of different entities are disjoint, and together they cover the range. The destination indices of a cell are exactly the blocks of its own vertices, edges, faces and interior, in the order of the reference element's entities, so two cells share an index exactly when they share the entity that owns it. Boundary destination indices are the blocks owned by the boundary cell's closure, in the boundary cell's own entity order.",
  ["inputs", "configurations"], "all meshes, element families and orders, component counts and tag selections",
  "Tests only see projection errors on tiny structured meshes with one component; index overlap or ordering errors for other orders/components are never sampled.",
  ["src/spaces/dof_map.py", "src/mesh/mesh_topology.py", "src/mesh/mesh.py"],
  [("entity maps from an accumulated count of entity dofs", "src/spaces/dof_map.py build_entity_maps"), ("lookup through the incidence graph", "src/spaces/dof_map.py destination_indices, bc_destination_indices")],
  [("vertex_map/edge_map/face_map/volume_map", "dof block per entity id", "src/spaces/dof_map.py")], ["destination_indices", "bc_destination_indices", "dof_number"])

p("C03", "Product spaces put fields in disjoint contiguous blocks",
  "In a product of several fields, the global indices of the i-th field are its own indices plus the sizes of all earlier fields plus the product's global shift; the total size is the sum of the field sizes, so different fields never share an index. A cell's indices are the per-field indices concatenated in declaration order, the per-field query returns exactly that field's part, and the same offsets apply to boundary indices. The global shift accepts exactly the non-negative integers.",
  ["inputs", "configurations", "histories"], "all field counts, field sizes, shifts and cells",
  "No existing test builds a product of more than one field or uses a shift.",
  ["src/spaces/product_space.py", "src/spaces/md_product_space.py"],
  [("accumulated field sizes used as stride", "src/spaces/product_space.py discrete_spaces_destination_indexes"), ("validated shift", "src/spaces/product_space.py dof_shift")],
  [("n_dof", "total number of dofs", "src/spaces/product_space.py")], ["destination_indexes", "bc_destination_indexes", "n_dof"])

p("C04", "Global assembly is the exact sum of the local contributions",
  "After assembling any list of forms, every entry of the global residual and matrix equals its previous value plus the sum, over every listed item exactly once, of the local residual and matrix entries addressed to it by the item's destination indices (repeated indices accumulate; local row i goes to global row d_i, local column j to global column d_j). Each form receives the state values at its own destination indices, and for time-dependent volume forms both the previous and the current state and the time. Nothing else is modified, and reordering items or forms does not change the result.",
  ["inputs", "histories"], "all form kinds, destination index lists (with repetitions), local matrices and states",
  "No existing test assembles through the assembler at all.",
  ["src/assembly/ScatterFormData.py", "src/assembly/SequentialAssembler.py"],
  [("additive scatter of ravelled local matrix", "src/assembly/ScatterFormData.py"), ("dispatch by form kind over the item sequence", "src/assembly/SequentialAssembler.py scatter_forms")],
  (), ["jacobian", "residual"])

p("C05", "The cell map reproduces the affine simplex it describes",
  "For every non-degenerate simplex in space and every reference point, the mapped point is the affine combination of the vertices with the barycentric weights of that point and the Jacobian's columns are the edge vectors from the first vertex. The reported determinant is positive and equals the ratio of the cell's length/area/volume to the reference cell's, and the reported inverse is a left inverse of the Jacobian whose rows lie in the cell's tangent space. Hence integrating with the determinant gives the exact measure of the cell.",
  ["inputs"], "all non-degenerate segments, triangles and tetrahedra embedded in three dimensions, in any orientation",
  "Tests use axis-aligned boxes meshed by gmsh and never look at the map itself.",
  ["src/geometry/mapping.py", "src/basis/finite_element.py"],
  [("linear shapes and QR pseudo-inverse with sign fixing", "src/geometry/mapping.py")],
  (), ["evaluate_mapping"])

p("C06", "Facet points map to the same physical point from cell and facet",
  "For every cell, every one of its facets, every ordering of the facet's nodes and every reference point of the facet, lifting the point to the cell's reference coordinates and mapping with the cell gives the same physical point as mapping with the facet's own map. Consequently the trace of a field evaluated from the cell at the lifted points is its value at the physical facet points, and the restricted trace keeps exactly the cell basis functions attached to that facet.",
  ["inputs"], "all facets of segments, triangles and tetrahedra, all node orders, all facet points",
  "Existing tests never evaluate traces.",
  ["src/basis/parametric_transformation.py", "src/basis/basis_trace.py"],
  [("facet vertices re-indexed by node tag before the linear combination", "src/basis/parametric_transformation.py"), ("facet dof selection", "src/basis/basis_trace.py")],
  (), ["transform_lower_to_higher", "trace_discrete_space"])

p("C07", "Finite element functions conform across shared entities",
  "For any assignment of global degrees of freedom, on any mesh and for any node numbering, the function is single valued in the sense of its space across every shared untagged facet: Lagrange functions are continuous, Raviart-Thomas/BDM functions have a continuous normal component, Nedelec functions have a continuous tangential component. This does not depend on the local order in which either neighbour lists the shared vertices.",
  ["inputs", "configurations"], "all conforming meshes in 2D and 3D, families, polynomial orders and vertex numberings",
  "Tests check global projection errors on small meshes for a few orders only; many local orientations never occur there.",
  ["src/basis/permute_and_transform.py", "src/basis/finite_element.py", "src/spaces/dof_map.py"],
  [("edge/face orientation against global vertex order, followed by reference dof transformations", "src/basis/permute_and_transform.py")],
  (), ["evaluate_basis", "destination_indices"])

p("C08", "Facet normals are unit, orthogonal and outward",
  "For every non-degenerate simplex and each of its facets, the computed normal has unit length, is orthogonal to the facet, lies in the cell's tangent space, and points out of the cell. It does not depend on the node order of the cell or of the facet.",
  ["inputs"], "all non-degenerate segments, triangles and tetrahedra in space and each facet, in any node order",
  "No existing test computes a normal.",
  ["src/geometry/compute_normal.py"],
  [("cross products oriented by the centroid difference", "src/geometry/compute_normal.py")], (), ["normal"])

p("C09", "Point-in-segment/triangle/polygon predicates decide membership",
  "For a non-degenerate segment, triangle or simple planar polygon, the point queries report an intersection for every point of the closed set (vertices, edges and interior included) and none for any point at a distance from it well above the tolerance; a reported point coincides with the query point up to tolerance. The vectorised queries return exactly the intersected points in input order together with the matching boolean mask, and sorting along a segment orders points by distance from the chosen end.",
  ["inputs"], "all points and all non-degenerate segments, triangles and simple polygons, in any vertex order or position in space",
  "Tests use a dozen hand-picked configurations.",
  ["src/geometry/operations/point_geometry_operations.py"],
  [("collinearity / coplanarity measures, sphere tests and barycentric coordinates", "src/geometry/operations/point_geometry_operations.py")], (), ["point_line_intersection", "point_triangle_intersection", "point_polygon_intersection"])

p("C10", "Segment intersection queries return exactly the common points",
  "Two non-parallel segments are reported to intersect exactly when they have a common point (up to tolerance), and the returned point lies on both; when both ends of the first lie on the second both are returned. A segment crossing a triangle or polygon plane transversally is reported to intersect exactly when the crossing point belongs to the segment and to the triangle or polygon, and that point is what is returned; vectorised versions agree with the individual queries and their mask.",
  ["inputs"], "all pairs of non-degenerate non-parallel segments; all segments transversal to a non-degenerate triangle or convex polygon",
  "Tests use hand-picked configurations near the unit square.",
  ["src/geometry/operations/line_geometry_operations.py"],
  [("least squares of the two parametric lines with range test on both parameters", "line_line_intersection"), ("plane crossing parameter and membership", "line_triangle_intersection")], (), ["line_line_intersection", "line_triangle_intersection", "line_polygon_intersection"])

p("C11", "Polygon triangulation tiles the polygon; convexity is decided right",
  "Triangulating a simple planar polygon yields triangles that lie in the polygon, do not overlap and whose areas add up to the polygon's area; the computed normal is a unit vector orthogonal to the polygon's plane. The convexity test answers yes exactly for strictly convex polygons, for either orientation and starting vertex.",
  ["inputs"], "all strictly convex or simple non-convex planar polygons in space (no three consecutive collinear vertices)",
  "Tests use a handful of fixed polygons.",
  ["src/geometry/operations/polygon_geometry_operations.py"],
  [("centroid fan for convex polygons, filtered Delaunay otherwise", "triangulate_polygon"), ("turn directions against the normal", "convex_q")], (), ["triangulate_polygon", "convex_q", "polygon_normal"])

p("C12", "Shape identity, containment and construction rules hold",
  "Two shapes compare equal exactly when dimension and tag agree and their boundary and immersed shapes agree one by one (vertices additionally need the same coordinates), and inequality is the negation. Boundary shapes are kept in ascending tag order whatever order they are given in, and a shape refuses boundary or immersed shapes of inadmissible dimension. Assigning one shape to another makes them equal, and is refused between different dimensions or composite kinds.",
  ["inputs", "histories"], "all shapes of every kind and any tags, boundaries and immersed shapes",
  "Tests compare a few hand-built shapes without immersed members.",
  ["src/topology/shape.py", "src/topology/vertex.py", "src/topology/edge.py", "src/topology/wire.py", "src/topology/face.py", "src/topology/shell.py", "src/topology/solid.py", "src/topology/composite_solid.py"],
  [("recursive comparison", "src/topology/shape.py __eq__"), ("sorted, dimension-checked setters", "src/topology/shape.py boundary_shapes/immersed_shapes")], (), ["==", "in", "boundary_shapes"])

p("C13", "Splitting an edge by vertices partitions it; domain operations keep all",
  "Splitting an edge by a set of points yields consecutive sub-edges that start at one end of the edge, finish at the other, share end points, have break points exactly at the distinct given points strictly inside the edge, keep the edge's physical tag and receive pairwise distinct tags; points not on the edge change nothing. Subtracting points from a set of edges keeps untouched edges as they are and replaces every other edge by such a partition, and creating a domain from shapes stores every distinct shape exactly once in the slot of its dimension.",
  ["inputs"], "all non-degenerate edges and finite sets of points (duplicates, end points and outside points included)",
  "Tests use a few axis-aligned examples with one or two points.",
  ["src/topology/operations/vertex_operations.py", "src/topology/operations/domain_operations.py", "src/topology/domain.py"],
  [("deduplicate, filter, sort, chain", "vertices_edge_difference"), ("keyed union of shapes", "create_domain/domain_difference")], (), ["vertices_edge_difference", "domain_difference", "create_domain"])

p("C14", "Incidence graphs represent exactly the mesh incidence",
  "The graph between dimension d and d-c has an arc from a cell to a sub-entity exactly when the cell lists that sub-entity, for every cell of dimension d selected by the physical tags (all of them when no tag restricts) and for no other. Hence neighbour queries return exactly the selected higher-dimensional cells containing an entity, successors of a cell appear in the cell's own sub-entity order, and entity lists contain each entity of the selected cells' closure exactly once.",
  ["inputs", "configurations"], "all meshes, dimensions, codimensions and physical tag selections",
  "Tests do not examine the graphs; tag-restricted graphs are never built on mixed tags.",
  ["src/mesh/mesh.py", "src/mesh/mesh_topology.py", "src/mesh/topological_queries.py"],
  [("edge list gathered per cell into a directed graph", "src/mesh/mesh.py build_graph, build_graph_on_physical_tags"), ("per-dimension maps", "src/mesh/mesh_topology.py")], (), ["entity_maps", "find_higher_dimension_neighs"])

p("C15", "Element matrices are the exact linearisation of element residuals",
  "For every volume and boundary form the element residual is the integral, by the space's quadrature, of the stated weak form over that cell and no other, and the element matrix is its exact derivative with respect to the element state. Forms that use automatic differentiation return both at the given state, for every state, material and source. Directly computed forms (evaluate_form_vectorized, the L2 projection and the boundary forms) are affine: they return the matrix, together with the residual at the zero state (for a boundary form: the quadrature of the prescribed data), and agree with the differentiated version of the same form. Evaluating a form changes neither the element state nor the values supplied by the user's functions. Boundary data enter through the trace of the neighbouring cell on that boundary entity.",
  ["inputs", "configurations"], "all states, basis tabulations, geometries, material functions and sources",
  "Only the projection form is exercised by tests, through its solution error.",
  ["src/weak_forms/l2_projector_weak_form.py", "src/weak_forms/laplace_dual_weak_form.py", "src/weak_forms/laplace_primal_weak_form.py", "src/weak_forms/unscaled_elliptic_weak_form.py", "src/weak_forms/degenerate_elliptic_weak_form.py", "src/weak_forms/le_primal_weak_form.py", "src/weak_forms/lce_primal_weak_form.py", "src/weak_forms/le_dual_weak_form.py", "src/weak_forms/lce_dual_weak_form.py", "src/weak_forms/lce_scaled_dual_weak_form.py"],
  [("forward automatic differentiation or hand-assembled symmetric blocks", "src/weak_forms/*.py evaluate_form")], (), ["evaluate_form"])

p("C16", "The L2 projection reproduces functions of the space",
  "Projecting a function that belongs to the discrete space returns that function, for every family, order, mesh size and component count; for any other function the projection error is orthogonal (in the quadrature of the space) to every basis function, so projecting again changes nothing. Both the symmetric and the general solver path give that same projection, and the space is left as it was. Vector families are compared in the first d coordinates, d the dimension of the cells.",
  ["inputs", "configurations"], "all meshes (any size and scaling), families, orders and functions",
  "Tests check a few polynomial functions on unit-size box meshes.",
  ["src/postprocess/projectors.py", "src/weak_forms/l2_projector_weak_form.py"],
  [("assemble mass system and solve", "src/postprocess/projectors.py l2_projector"), ("mass matrix and load", "src/weak_forms/l2_projector_weak_form.py")], (), ["l2_projector"])

p("C17", "Reported norms are the true norms of the discrete error",
  "The reported L2 error of a discrete solution against an exact function equals the square root of the integral of the squared pointwise difference over all cells of the requested dimension, field by field in the order of the fields without the skipped ones (evaluated with the space's own basis and quadrature); it is zero exactly when they agree at the quadrature points, and depends on every component and every cell. The same holds for the gradient, divergence and scaled-divergence errors, for the norm of a coefficient vector and of an exact function, and for the deviatoric versions, which first remove from each field the mean over the domain of its trace part. Vector families are compared in the first d coordinates.",
  ["inputs", "configurations"], "all spaces, solutions and exact functions",
  "Tests only compare a reported error with zero.",
  ["src/postprocess/l2_error_post_processor.py", "src/postprocess/solution_norms_post_processor.py"],
  [("quadrature accumulation over elements", "l2_error, *_error")], (), ["l2_error"])

p("C18", "Opening a mesh along a fracture separates exactly its two sides",
  "Opening a conforming planar mesh (Mesh.build_conformal_mesh of a gmsh mesh) along its tagged straight fracture edges, with mesh_operations.cut_conformity_along_c1_line(s) or Mesh.cut_conformity_on_fractures_mds_ec, keeps the number, ids and physical tags of the existing cells and the coordinates of every cell's nodes. Two volume cells around a vertex still share that vertex exactly when one can be reached from the other around the vertex without crossing a fracture edge, no two volume cells share a fracture edge any more, and every other edge stays shared. Each fracture edge gets one copy per side, lying on it, carrying the side's clone tag, bounding exactly the volume cell of that side, and the returned interface lists original, positive and negative copies in matching order (positive: the side of the line's direction turned a quarter counter-clockwise). The result is a closed complex: every cell's id is its position, its sub cells are the vertices and edges over its own nodes, and an edge of a cell joins vertices of that cell; cells that do not touch the fracture are unchanged, and vertices where nothing separates (internal tips) are not duplicated. Lines are cut in the order given. For cut_conformity_on_fractures_mds_ec the fractures lie inside the domain.",
  ["inputs"], "all conforming triangle meshes with tagged interior straight fracture lines",
  "No existing test checks a cut mesh; the side decisions depend on every centroid, and the copies on every incidence around the fracture.",
  ["src/mesh/mesh_operations.py", "src/mesh/mesh.py"],
  [("side classification and update of the cells around a line", "src/mesh/mesh_operations.py cut_conformity_along_c1_line, update_cells_with_cell_pairs"), ("duplication by tagged edges", "src/mesh/mesh.py cut_conformity_on_fractures_mds_ec")], (), ["cut_conformity_along_c1_line", "cut_conformity_along_c1_lines", "cut_conformity_on_fractures_mds_ec"])

p("C19", "Wires are head-to-tail traversals; built domains are closed and tag-true",
  "For a chain of edges in which consecutive edges share a vertex, the wire's orientation signs traverse it head to tail starting from the end of the first edge that the second edge does not share (the lower-tagged end for a single edge or a two-edge loop), and the ordered vertex list holds the start vertex of each edge of that traversal. Built-in line, rectangle and box domains (topology.domain_market build_box_1D/2D/3D, GeometryBuilder build_box_1D/2D/build_box) consist of faces whose wires are closed loops over the requested corner coordinates, each corner, edge and face exactly once, with tags unique per dimension and with the requested physical tags: sides bc_0..bc_3 of a rectangle follow its corners in order, faces of a box are bc_0=0123, bc_1=4567, bc_2=0154, bc_3=1265, bc_4=2376, bc_5=3047 (corner numbers). create_md_box_2D gives a rectangle whose boundary wire is closed and whose sides keep their tags when fractures end on, cross or lie in it. Handing a line or planar domain to gmsh (DiscreteDomain.generate_mesh, ConformalMesher.generate_from_domain; the latter also a box) creates every vertex, edge and face once with its coordinates, boundary and orientation (edges divided into others by their pieces), and puts exactly the entities of a physical tag into that tag's group; edges immersed in a face are embedded in it (both, the latter through the OCC back end), and a face immersed in a box, without shapes immersed in itself, in the box with its edges. ConformalMesher.generate does the same for a box of the GeometryBuilder whose sides and inside all have tags, and in the plane for a FractureNetwork set before: every end and crossing is one point, every piece of a fracture one line, embedded in the surface with its points; the pieces of a fracture form the line group of its tag, its two ends the point group, each crossing a point group of its own (where the tag paired for a crossing is no fracture's tag), and afterwards the network's vertices name its own points again. The mesh is generated in every dimension and refined the requested number of times.",
  ["inputs"], "all edge chains with arbitrary tags; all boxes and rectangles; all line and planar domains; fracture networks whose fractures cross in their interiors",
  "Tests build single fixed wires and check mesh sizes, never orientations, tags or incidences.",
  ["src/topology/wire.py", "src/topology/domain_market.py", "src/topology/shape_manipulation.py", "src/geometry/geometry_builder.py", "src/mesh/discrete_domain.py", "src/mesh/conformal_mesher.py", "src/geometry/fracture_network.py"],
  [("seed vertex walk", "src/topology/wire.py orient_immersed_edges"), ("domain construction", "src/topology/domain_market.py"), ("transfer", "src/mesh/discrete_domain.py, src/mesh/conformal_mesher.py")], (), ["Wire.orientation", "Wire.orient_immersed_vertices", "build_box_*", "GeometryBuilder.build_box*", "create_md_box_2D", "DiscreteDomain.generate_mesh", "ConformalMesher.generate_from_domain", "ConformalMesher.generate"])

p("C20", "Cell metrics and rigid rotations are geometrically exact",
  "The reported centroid of a cell is the average of its vertices and its diameter the largest distance between two of them; the mesh size returns the minimum, mean and maximum diameter over exactly the cells of the requested dimension and physical tag. Rotating a vector about a coordinate axis preserves length and angles, fixes that axis, and rotations about the same axis add up.",
  ["inputs"], "all cells, meshes, selections, vectors and angles",
  "No test covers these functions.",
  ["src/mesh/mesh_metrics.py", "src/mesh/mesh_cell.py"],
  [("pairwise distances", "src/mesh/mesh_metrics.py"), ("rotation matrices", "src/mesh/mesh_cell.py")], (), ["cell_diam", "mesh_size", "rotate_vector"])

p("C21", "Fracture networks record exactly the crossings of their fractures",
  "For any set of segments in general position, the network holds one point per end and one per crossing, each fracture that is crossed is divided into consecutive pieces running from one end to the other through all of its crossing points, and crossing tags are unique per unordered pair of fractures. The pairing of two non-negative integers is injective and unpairing recovers the pair.",
  ["inputs"], "all finite sets of segments in general position; all pairs of non-negative integers",
  "Tests look only at one fixed network.",
  ["src/geometry/fracture_network.py", "src/geometry/operations/triangle_triangle_intersection_test.py"],
  [("pairwise intersection and chain of immersed cells", "src/geometry/fracture_network.py intersect_1D_fractures"), ("elegant pairing", "src/geometry/fracture_network.py")], (), ["intersect_1D_fractures", "pair_intergers"])

p("C22", "Element bases are the pushed-forward reference bases with unit moments",
  "Evaluated basis values are the standard pull-back/Piola transforms of the reference basis with the cell's own Jacobian, so constants are reproduced: Lagrange bases sum to one with derivatives summing to zero on every cell, and the facet fluxes of a mapped Raviart-Thomas/BDM function and the edge circulations of a mapped Nedelec function equal those of the reference function. Values at given points do not depend on earlier evaluations. (On one-dimensional cells the vector families are the scalar Lagrange functions scaled by the first component of the contravariant Piola map.)",
  ["inputs", "configurations", "histories"], "all non-degenerate cells, families, orders and points",
  "Tests only see the combined projection error.",
  ["src/basis/finite_element.py", "src/basis/element_family.py", "src/basis/element_type.py"],
  [("tabulation, push forward and orientation", "src/basis/finite_element.py evaluate_basis")], (), ["evaluate_basis"])

p("C23", "Exported result files hold the discrete solution at the right places",
  "The exporters of solution_post_processor write the mesh's points and its cells (write_vtk_file_with_exact_solution: the cells with the fields' physical tags), each once with its own nodes, and for every field: as point data at every vertex of the field's cells the average, over the field's cells around that vertex, of the values there of the cell's discrete function (its own coefficients and basis); as cell data, for the fields asked to be cell centred, its value at the centroid of the cell of that row. Exact values are the exact function at the same vertex or centroid, and the error export holds the Euclidean norm of the difference over all components. All components are written in order (vector families: the first d coordinates, component by component); points outside a field hold zero (in the export of several spaces points and cells outside a field hold nan). Coefficients and points are not modified.",
  ["inputs", "configurations"], "all meshes, spaces of fields of every family and component count, coefficient vectors and exact functions",
  "No test looks into an exported file.",
  ["src/postprocess/solution_post_processor.py"],
  [("average over the cells around a vertex", "src/postprocess/solution_post_processor.py node_average_quatity"), ("cell value", "src/postprocess/solution_post_processor.py cell_centered_quatity"), ("tables and written mesh", "src/postprocess/solution_post_processor.py write_*")], (), ["arguments of meshio.Mesh", "written files"])

p("C24", "Triangle and quadrilateral intersections are exactly the common segment",
  "Two triangles in space in general position (no vertex of one in the plane of the other, no edge of one meeting an edge of the other) are reported to intersect exactly when they have a common point, and the two points returned are the two ends of their common segment. The same holds for two convex planar quadrilaterals given by their corners in order. The arguments are not modified.",
  ["inputs"], "all pairs of triangles or convex quadrilaterals in general position",
  "Tests try a handful of hand-made pairs.",
  ["src/geometry/operations/triangle_triangle_intersection_test.py", "src/geometry/operations/polygon_polygon_intersection_test.py"],
  [("signed volumes and clipping of a coplanar segment", "src/geometry/operations/triangle_triangle_intersection_test.py"), ("two triangles per quadrilateral, extreme points of the pieces", "src/geometry/operations/polygon_polygon_intersection_test.py")], (), ["result of triangle_triangle_intersection", "result of polygon_polygon_intersection"])

p("C25", "Intersections of vertices and edges are shapes at exactly the common points",
  "vertex_vertex_intersection, vertex_edge_intersection and edge_edge_intersection (edges that are not parallel) return None exactly when the two shapes have no common point (up to the tolerance), and otherwise a vertex located there: the vertex of the object when the tool (or an end of it) has the same tag and place, else a new vertex with the requested tag. The versions for lists treat every edge in order, report for each the vertices of the tool that meet it, in order, with one intersection each, and give every new vertex its own tag, starting at the requested one; domain_intersection returns exactly those vertices. Two vertices or edges have the same geometry exactly when their points coincide (the ends in the order of their tags), are strongly equal when in addition the tags agree, and collapsing makes a coinciding object equal to the tool and refuses any other. Nothing but a collapsed object is modified.",
  ["inputs"], "all vertices, edges in general position, tags and lists of them",
  "Tests look at four pairs of shapes and at no list.",
  ["src/topology/operations/vertex_operations.py", "src/topology/operations/edge_operations.py", "src/topology/operations/domain_operations.py"],
  [("boundary query before the geometric one", "src/topology/operations/vertex_operations.py vertex_edge_intersection"), ("numbering of new vertices", "src/topology/operations/vertex_operations.py vertices_edge_intersection, vertices_edges_intersection"), ("crossing of two edges", "src/topology/operations/edge_operations.py edge_edge_intersection")], (), ["returned vertices and lists"])

p("C26", "Exported meshes hold exactly the tagged cells",
  "Mesh.write_vtk writes one file per dimension that has cells with a physical tag, holding the mesh's points and exactly those cells, each once, with its own nodes in its own order, its physical tag and its id (entity_tag). Mesh.write_data lists every point with its coordinates and every cell with its dimension, id, physical tag, nodes and sub-cell ids per dimension, and the least and greatest dimensions of the cells and of the tagged cells. The mesh is not modified. (Without colouring.)",
  ["inputs"], "all meshes of dimension 1, 2 and 3 with any tagging",
  "No test looks into an exported mesh.",
  ["src/mesh/mesh.py"],
  [("selection of the tagged cells per dimension", "src/mesh/mesh.py write_vtk"), ("listing", "src/mesh/mesh.py write_data")], (), ["arguments of meshio.Mesh", "written files"])

p("C27", "Spaces hold one element per requested cell and exact quadrature for it",
  "A product space has one discrete space per declared field, in order, with the declared dimension, components, family and order; exactly the fields asked for are discontinuous. After building, the elements of a field are exactly the cells of its dimension that carry one of the field's physical tags, each once and in the order of element_ids, and its boundary elements exactly the facets of those cells that carry one of its boundary tags; the index maps lead from a cell's id to its element, all of it for the last build, whatever was built before. The space keeps the physical tags given for its fields, by which results are exported. Elements and numbering use the declared order, continuity and family (Lagrange on points and segments); traces of Lagrange, RT and BDM fields are piecewise polynomials of the order of the trace. The quadrature rules, one per dimension and per boundary dimension of the fields, integrate every polynomial of degree 2k+1 exactly on the reference cell, k the largest order of the fields.",
  ["inputs", "configurations"], "all meshes, fields of any dimension, family and order, and selections of tags",
  "Tests use a few meshes whose cells all carry the requested tags and fields of equal order.",
  ["src/spaces/product_space.py", "src/spaces/discrete_space.py", "src/mesh/mesh_topology.py"],
  [("elements over the topology of the requested tags", "src/spaces/discrete_space.py _build_elements, _build_bc_elements"), ("common integration order", "src/spaces/product_space.py _define_integration_order_and_quadrature")], (), ["elements, bc_elements, id_to_element", "quadrature, bc_quadrature"])

p("C28", "A rectangle with a file of lines is cut exactly where lines and sides meet",
  "build_box_2D_with_lines (lines of the file inside the closed rectangle, in general position: not through a corner, no overlap, places well apart) gives one face whose wire holds the four sides and whose immersed shapes are the lines in the order of the file, sides and face with the requested physical tags and every line with its own, following the greatest of them. The vertices are exactly the corners, the ends of the lines and the common points of lines and sides, one vertex per place, shared by everything that meets there, also when lines share an end or end on a side or on another line. A side or line with vertices inside is divided into consecutive fragments from end to end, one between neighbouring vertices, and one without is not divided. The orientation of the wire goes round the rectangle once. The domain lists every shape once, shapes of the same dimension have different tags, whatever the number of lines, and the graph states exactly which shapes bound or lie in another. The steps hold on their own: embed_vertex_in_edge (vertices on the ray of the edge), intersect_edges, retag_shapes, remove_vertex, lookup_vertex.",
  ["inputs", "configurations"], "all rectangles and sets of lines in general position",
  "Tests look at eight files of at most four lines in the unit square.",
  ["src/topology/domain_market.py", "src/topology/shape_manipulation.py", "src/topology/domain.py", "src/topology/wire.py"],
  [("meeting points and their vertices", "src/topology/shape_manipulation.py intersect_edges"), ("division of an edge", "src/topology/shape_manipulation.py embed_vertex_in_edge"), ("numbering", "src/topology/domain.py retag_shapes_with_dimension"), ("orientation", "src/topology/wire.py orient_immersed_edges")], (), ["the domain: shapes, tags, orientation and graph"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P))
