"""The properties, their wording, anchors and the rule groups (checks/g.py) that decide each one.
tools/gen.py writes properties.jsonl and MANIFEST.json from this table."""

METHOD = ("Clang's type-checked syntax tree of the current sources is reduced to a gated value graph per function (every effect, its guard, the stored value and the "
          "result as normal-form terms over symbolic arguments; no execution, no solver); the graph must equal that of a specification program written in terms of "
          "the public vocabulary. ")
ALIAS = ["distinct symbolic reference arguments do not alias", "floating point is compared as real arithmetic (reassociation is not a difference)",
         "library containers and streams behave as modelled in engine/models.py", "termination of the analysed loops is not part of the property"]

P = {}


def prop(id, title, statement, text, why, files, mech, groups, how, over=("inputs", "histories"), extra=()):
    P[id] = dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, groups=groups.split(), how=how, method=METHOD, assume=ALIAS + list(extra))


U, A, X = "src/utils/", "src/algorithm/", "src/app/"

prop("P01", "The spatial index always mirrors the set of stored mesh entities",
     "Every entity that is inserted into a container is registered in that container's spatial index, every removed entity is taken out of both and kept alive until the waste is cleared, and an entity whose position changes stays findable at its new position. "
     "A removed entity reports that it is no longer stored. Nothing else changes an entity's stored position, slot or membership.",
     "all sequences of insert, remove, move and clear over the four entity kinds",
     "tests insert and remove a handful of points; they cannot visit every leaf boundary that a move may cross",
     [U + "Container.h", U + "QuadTree.h"], [("Container::insert/remove/update/clear_waste", U + "Container.h"), ("QuadTree::add/remove/get_leaf", U + "QuadTree.h")],
     "container quadtree", "insert/remove/update/clear of all four entity containers equal their specification programs; a writer audit shows no other function assigns position, slot or membership")

prop("P02", "Spatial range and nearest queries return exactly the matching items",
     "A rectangle query returns exactly the stored items that lie in the closed rectangle, a circle query exactly those closer than the radius, and a nearest query the stored item with the smallest distance, whatever the distribution of the items and however the index has been refined or merged before. "
     "Item counts of all cells equal the number of items below them.",
     "all item sets, insertion and removal orders, query windows",
     "tests compare a few query windows on one random cloud with a brute force search",
     [U + "QuadTree.h", U + "Container.h"], [("QuadTree::get_items / get_nearest / split / merge", U + "QuadTree.h")],
     "quadtree container_queries vectors", "each operation of the index (add, remove, split, merge, count, leaf look-up, window visit, per-item filter) equals its specification program; together they keep the invariant that an item is in the first cell containing it")

prop("P03", "Mesh connectivity stays mutually consistent while elements come and go",
     "Every vertex knows exactly the edges and elements that use it: creating an edge, triangle or quad registers it with all its vertices, and destroying it unregisters it from all of them and from its edges. "
     "Local vertex, edge and neighbor indices of an element agree with each other, and the cached length, tangent, normal, area, angles and centroid of an entity are those of its current vertex positions.",
     "all creation and removal histories and all vertex positions",
     "tests look at a few hand-made elements; a missing unregistration only shows after a particular removal order",
     [A + "Vertex.h", A + "Edge.h", A + "Triangle.h", A + "Quad.h", A + "Facet.h"], [("entity constructors and container_destructor", A + "Triangle.h"), ("Vertex::add_*/remove_*", A + "Vertex.h")],
     "entities backlinks metrics", "constructors, destructors, registration, index look-ups and metric updates equal their specification programs; algebraic laws relate the local index functions")

prop("P05", "Geometric predicates decide their relation for every input",
     "Orientation, point-in-triangle, point-in-quad, point-in-rectangle, point-on-segment, segment crossing and intersection, and the overlap tests of triangles, quads and rectangles return the result of their defining inequalities, including the documented treatment of boundary points, for every configuration of points. "
     "Polygon area, bounding box and squared point-segment distance are the textbook values.",
     "all point coordinates (as real numbers, with the documented tolerance)",
     "tests evaluate some dozens of configurations; a wrong sign in one corner case needs the right configuration",
     [U + "Geometry.h"], [("orientation, in_*, line_*, tri_*, quad_* predicates", U + "Geometry.h")],
     "geometry vectors", "every predicate's truth table over normalised inequality atoms equals the one of the specification program", over=("inputs",))

prop("P06", "Element geometry and overlap tests are exact for triangles and quads",
     "Centroid, area, side lengths, angles, shape factor and quality of a triangle or quad follow their formulas, an element is reported valid only if it is convex with counter-clockwise orientation, and an element is accepted next to existing geometry only if it overlaps no nearby front edge, vertex, triangle, quad or the outside of the domain.",
     "all element shapes and all surroundings",
     "tests sample a few elements; overlaps depend on the relative placement of two elements",
     [A + "FacetGeometry.h", A + "Triangle.h", A + "Quad.h", A + "Vertex.h"], [("TriangleGeometry / QuadGeometry", A + "FacetGeometry.h"), ("Triangle::intersects_*, Quad::intersects_*", A + "Triangle.h")],
     "facetgeom entities geometry_core vectors", "formulas and every overlap test equal their specification programs over the point predicates", over=("inputs",))

prop("P13", "Output numbering is a gapless, type-separated index and consistent neighbors",
     "Before a mesh is written, its vertices are numbered 0..n-1 in storage order, its elements are numbered gaplessly with all quads before all triangles, the vertex sizes are those of the domain's size function, and the neighbors of every element are exactly the elements across its edges.",
     "all meshes and all modification histories before the export",
     "tests compare one exported mesh; stale numbers only show after removals",
     [A + "MeshCleanup.h", A + "MeshWriter.h", A + "Mesh.h"], [("MeshCleanup::assign_mesh_indices / setup_facet_connectivity", A + "MeshCleanup.h"), ("MeshWriter::write", A + "MeshWriter.h")],
     "numbering entities", "the numbering passes and the order of passes in the writer equal their specification programs", over=("histories",))

prop("P14", "The text export describes the stored mesh completely and exactly",
     "The text file lists each stored vertex, every interior and boundary edge, interface edges between meshes, remaining front edges, every quad and triangle with its corner numbers and color, the neighbors of every element and the vertex sizes, each section preceded by its exact number of entries. "
     "A file that could not be written completely is reported as a failure.",
     "all meshes (any mix of quads, triangles, several meshes of one domain, incomplete meshes)",
     "tests only check that files get written for example domains",
     [A + "Mesh.h", A + "MeshWriter.h"], [("operator<<(Mesh)", A + "Mesh.h"), ("MeshWriter::write_to_txt", A + "MeshWriter.h")],
     "mesh_store text_export numbering vtu_txt", "the ordered sequence of values written to the stream equals that of the specification program for a symbolic mesh; edge collections and entity stores likewise", over=("inputs", "histories"))

prop("P15", "The VTU export describes the stored mesh completely and exactly",
     "The VTU file contains all vertices as points, all quads then all triangles as cells with matching connectivity, offsets and cell types, and per-point and per-cell data arrays whose i-th entry belongs to the i-th point or cell, with declared counts equal to what is written. "
     "A file that could not be written completely is reported as a failure.",
     "all meshes", "tests write a VTU file but never parse it back",
     [A + "MeshWriter.h", U + "VtkIO.h"], [("MeshWriter::write_to_vtu", A + "MeshWriter.h"), ("VtuWriter", U + "VtkIO.h")],
     "vtu_export numbering", "the arrays handed to the VTU writer and the ordered sequence of values it writes equal those of the specification programs", over=("inputs", "histories"))

prop("P30", "Edge lists keep direction, connectivity, color and area of their edges",
     "Adding, inserting, splitting and removing edges keeps the order of the list; oriented lists only accept edges that continue the path, both parts of a split edge inherit its color and properties and share one new vertex on it, and the signed area is that of the enclosed polygon. "
     "Look-ups find exactly the edge of this list between the given vertices (in the requested direction), and intersection and point-in-polygon tests follow their definitions.",
     "all edge lists, insertion orders, query points",
     "tests build a few short lists", [A + "EdgeList.h", A + "Edge.h"], [("EdgeList", A + "EdgeList.h")],
     "edgelist", "every operation of the edge list equals its specification program")

prop("P08", "A vertex or triangle joins the mesh only after passing every validity gate",
     "A new triangle stays in the mesh only if it is valid, overlaps no front edge, no vertex, no existing triangle or quad and does not leave the domain, and meets the limits on element quality and largest angle, "
     "and a new vertex only if it lies inside the domain and in no existing element; an entity that fails any gate is taken out of the mesh again. "
     "Of several admissible candidates the one with the best quality is kept and all others are removed; a front update returns the triangle it placed and nothing otherwise.",
     "all front configurations, size functions and candidate sets",
     "tests mesh complete domains, where a missing gate only shows for a front configuration that happens to violate it",
     [A + "FrontUpdate.h", A + "Front.h"], [("FrontUpdate::triangle_is_valid / vertex_is_valid / remove_from_mesh_if_invalid", A + "FrontUpdate.h"), ("FrontUpdate::update_front(_exhaustive)", A + "FrontUpdate.h")],
     "gates vectors", "the gates, the removal of rejected entities, the collection and the ranking of candidates and both update routines equal their specification programs")

prop("P09", "Advancing the front keeps front, mesh edges and area bookkeeping consistent",
     "When a triangle is placed on the front, every front edge it closes leaves the front and, where it is no boundary edge, becomes an interior edge of the mesh, every new side enters the front in the right direction, the front state of the vertices is updated, and the mesh area grows by the area of the triangle. "
     "The next base edge is an edge of the front.",
     "all front configurations",
     "a wrong edge removal shows only for particular neighborhoods of the base edge",
     [A + "FrontUpdate.h", A + "Front.h"], [("FrontUpdate::advance_front / update_front_state", A + "FrontUpdate.h"), ("Front::set_base_first / set_base_next", A + "Front.h")],
     "advance", "the bookkeeping routines equal their specification programs for symbolic fronts", over=("histories",))

prop("P10", "The initial front represents the domain boundary with its markers",
     "The initial front consists of exactly the exterior, interior and fixed edges of the domain in their direction (fixed edges in both directions), each carrying the color of the domain edge it comes from and marked as boundary or fixed accordingly; front vertices coincide with the domain vertices, keep their fixed marker and are marked as front and boundary vertices. "
     "Refining the front splits an edge into consecutive sub-edges that replace it and keep its color and its boundary or fixed marker; the new vertices lie on the edge at distances that follow the local element size, counted from the end with the smaller size, in the direction of the edge.",
     "all domains, size functions and neighboring meshes",
     "tests check edge counts for a few domains",
     [A + "Front.h", A + "FrontInitData.h"], [("Front::init_front / refine_front_edges", A + "Front.h"), ("FrontInitData::collect_front_edges", A + "FrontInitData.h")],
     "frontinit", "front construction, marking and refinement equal their specification programs")

prop("P17", "Neighboring meshes share exactly the vertices of their common boundary",
     "Where a domain boundary coincides with the boundary of an already generated mesh, the front of the new mesh is built from the edges of that mesh, in order, without further refinement, and each of these edges and its counterpart in the neighboring mesh refer to each other as twins; edges without a counterpart have no twin. "
     "The neighboring meshes considered are those that were registered for the domains before.",
     "all pairs of touching meshes", "tests build one pair of meshes with a straight interface",
     [A + "FrontInitData.h", A + "Front.h", A + "MeshBuilder.h"], [("FrontInitData::get_neighbor_mesh_edges", A + "FrontInitData.h"), ("Front::mark_twin_edges", A + "Front.h")],
     "frontinit builder", "neighbor edge collection, twin marking and refinement filter equal their specification programs", over=("inputs", "histories"))

prop("P16", "Merging two meshes transfers every entity and dissolves their interface",
     "Merging a donor mesh into a receiver copies each vertex, quad, triangle, interior edge and boundary edge of the donor exactly once with its colors and properties, reuses the receiver's vertices on the common interface, and turns the interface edges into interior edges. "
     "The donor is removed afterwards, and a merge that is not possible is refused and reported.",
     "all pairs of meshes with a common interface",
     "tests merge one pair of meshes and compare counts",
     [A + "MeshMerger.h", A + "MeshGenerator.h"], [("MeshMerger", A + "MeshMerger.h"), ("MeshGenerator::merge_meshes", A + "MeshGenerator.h")],
     "merger", "each copy pass and the order of the passes equal their specification programs", over=("inputs", "histories"))

prop("P20", "Domain and mesh verdicts are given only if all conditions hold",
     "A domain is accepted only if it has an exterior boundary and every boundary is a non-empty, closed, traversable path that intersects neither itself nor another boundary. "
     "A mesh is reported complete only if no front edge is left, every interior and boundary edge is an edge of an element at both of its ends, and the mesh area equals the domain area within the relative tolerance.",
     "all domains and meshes", "tests contain a few invalid domains and no incomplete mesh",
     [A + "EntityChecks.h", A + "MeshChecker.h"], [("EntityChecks::check_domain_validity / check_mesh_validity", A + "EntityChecks.h"), ("MeshChecker::check_completeness", A + "MeshChecker.h")],
     "validity", "each verdict's truth table over its conditions equals that of the specification program", over=("inputs", "histories"))

prop("P21", "Mesh operations act on the mesh they are given and refuse what cannot work",
     "Each operation of the mesh generator (layering, triangulation, the smoothing variants, refinement, tri-to-quad conversion, merging, writing) works on exactly the mesh that was passed in with the domain that belongs to it, reuses an algorithm object only for the mesh it was created for, and reports an unknown mesh as a failure. "
     "A mesh is registered with its domain on creation and unregistered on removal; preparing a non-empty mesh or an invalid domain is refused.",
     "all call sequences on several meshes", "tests use one or two meshes in a fixed order",
     [A + "MeshGenerator.h", A + "MeshBuilder.h"], [("MeshGenerator", A + "MeshGenerator.h"), ("MeshBuilder", A + "MeshBuilder.h")],
     "generator builder", "the selection and registration routines equal their specification programs", over=("histories",))

prop("P22", "The local element size is the minimum of user function and boundary sizing",
     "The size at a point never exceeds the user-defined size function there; it is the minimum of that function and the contributions of all boundary edges and of all fixed vertices that define a size, each blending smoothly from the local size at the vertex to the user-defined size with the distance relative to the vertex's range. A non-positive value of the user-defined function is rejected. An exported size function lists the sizes on the requested grid, row by row.",
     "all points, size functions and vertex sizes", "tests evaluate a few points",
     [A + "Domain.h", A + "SizeFunction.h"], [("Domain::size_function", A + "Domain.h"), ("SizeFunction::evaluate", A + "SizeFunction.h")],
     "sizefun size_export vectors", "the size evaluation equals its specification program", over=("inputs",))

prop("P23", "The domain is the inside of its exterior minus its interior boundaries",
     "A point is inside the domain exactly if it is inside every exterior boundary and in no interior boundary, the domain area is the sum of the signed boundary areas, the extent is the bounding box of the domain vertices, edge look-ups return the boundary edges in the given window, and vertices and edges that are added as fixed are marked and kept as such; what is removed is removed from the lists that held it, and boundaries keep the order in which they were added.",
     "all domains and query points", "tests check some points of one domain",
     [A + "Domain.h"], [("Domain::is_inside / area / extent / get_boundary_edges / add_fixed_*", A + "Domain.h")],
     "domain opt_domain", "each query and registration equals its specification program", over=("inputs",))

prop("P24", "Boundary shapes are built with the requested geometry, orientation and colors",
     "A boundary made from a coordinate list, a CSV file, rectangle, square, circle or triangle is a closed polygon through exactly the requested points, counter-clockwise for exterior and clockwise for interior boundaries, where every edge keeps the color and every vertex the sizing given for it, whichever orientation the input has.",
     "all shapes, colors and input orientations", "tests use one orientation per shape and mostly one color",
     [A + "Boundary.h"], [("Boundary::create_boundary_shape / set_shape_*", A + "Boundary.h")],
     "shapes vectors", "every shape builder equals its specification program", over=("inputs",))

prop("P04", "Moving a vertex refreshes everything that depends on its position",
     "When a vertex is moved, its stored position, its place in the spatial index, and the cached length, tangent, normal, area, angles and centroid of every edge and element attached to it are those of the new position.",
     "all meshes and movements", "tests move a few vertices and look at one attached element",
     [A + "MeshCleanup.h", A + "Vertex.h", A + "Edge.h", A + "Triangle.h", A + "Quad.h"], [("MeshCleanup::set_vertex_coordinates", A + "MeshCleanup.h"), ("update_metrics of edges and elements", A + "Edge.h")],
     "moves metrics container vectors", "the move and the metric updates equal their specification programs; a writer audit shows no other assignment of a stored position", over=("inputs", "histories"))

prop("P12", "Quad refinement replaces every element by a conforming set of quads",
     "Refining a mesh halves every interior and boundary edge at its midpoint, replaces every triangle by three and every quad by four quads around its centroid with counter-clockwise corners and the color of the old element, keeps colors and markers of boundary edges, gives new vertices the properties of the vertices they come from (inner vertices are no boundary vertices), and removes all coarse edges and elements. "
     "A mesh with twin edges to a neighboring mesh is refused and stays unchanged.",
     "all mixed meshes, colors and repetitions", "tests refine a few meshes and compare counts and area",
     [A + "RefinementStrategy.h"], [("QuadRefinement", A + "RefinementStrategy.h")],
     "refinement", "each pass and the order of passes equal their specification programs", over=("inputs", "histories"))

prop("P28", "Tri-to-quad conversion and cleanup preserve coverage, colors and fixed vertices",
     "Tri-to-quad conversion merges the two triangles of an interior edge into the quad of their outer corners only if both are triangles of the same color, in order of increasing smallest side, and each triangle takes part in at most one merge. "
     "The cleanup passes replace elements that share two consecutive edges by one element over the remaining corners with the same color, never remove a fixed vertex or merge across colors, remove exactly the superseded entities, and renew numbering and connectivity.",
     "all meshes", "tests convert whole meshes and check that files get written",
     [A + "ModificationStrategy.h", A + "MeshCleanup.h"], [("Tri2QuadModification", A + "ModificationStrategy.h"), ("MeshCleanup::clear_double_*_edges, merge_degenerate_triangles", A + "MeshCleanup.h")],
     "tri2quad numbering", "collection, merging and the cleanup passes equal their specification programs", over=("inputs", "histories"))

prop("P07", "Smoothing moves only free vertices and never inverts an element",
     "Smoothing never moves a fixed vertex or a vertex on the boundary, and vertices in quad layers only if that is enabled and then only along the layer. A moved vertex keeps its new position only if it lies inside the domain, every attached triangle and quad is counter-clockwise at all its corners and no nearby edges cross; otherwise it goes back to where it was. "
     "Laplace smoothing moves towards the mean of the neighbors, torsion smoothing towards equal angles, mixed smoothing alternates both, connectivity is established before, and relaxation, decay, angle factor and layer treatment are those the user has set.",
     "all meshes, strategies and iteration numbers", "tests smooth a few meshes and look at the plots",
     [A + "SmoothingStrategy.h"], [("SmoothingStrategy::smoothing_iteration, new_vertex_position_is_valid", A + "SmoothingStrategy.h"), ("compute_displacement of the strategies", A + "SmoothingStrategy.h")],
     "smoothing moves opt_smooth vectors", "the iteration, the acceptance tests and the displacement of each strategy equal their specification programs", over=("inputs", "histories"))

prop("P27", "Removed entities live until waste is cleared; owned objects are destroyed fully",
     "An entity removed from a mesh container is moved to the waste list, detached from its neighbors and stays allocated until the waste is cleared or the container ends; removing, clearing and adding keep list, waste and spatial index in step. "
     "Every class whose derived objects are owned through pointers to it has a virtual destructor, so nothing they own leaks.",
     "all call sequences", "tests do not look at removed entities or at leaks",
     ["src/utils/Container.h", A + "Mesh.h", "src/utils/VtkIO.h"], [("Container::remove / clear_waste", "src/utils/Container.h"), ("VtkIODataInterface", "src/utils/VtkIO.h")],
     "owned_deletion container mesh_store", "container operations equal their specification programs; a type-level rule over all owning pointers requires virtual destructors", over=("histories",))

prop("P18", "Input files and CSV boundaries are read as documented",
     "Comment lines are dropped and text behind a comment sign is no value; blocks run from their start to their end key and are served in file order, and so are repeated keys within a block. A scalar takes the value behind its key, a vector or matrix the delimited entries of its line or lines in order, without brackets, missing entries filled with the default only where that is asked for; too few entries or an incomplete last row mean that the parameter is not found. "
     "Text that is no value of the wanted type, an unknown or doubly defined name, a value that has not been found and a file that cannot be opened are errors, never silent defaults. "
     "A CSV boundary takes coordinates, color and vertex properties of each line in column order; a missing coordinate, a missing or negative color, an unreadable number or an unreadable file is an error.",
     "all input files", "tests read one parameter file and a few CSV files",
     ["src/utils/ParaReader.h", A + "Boundary.h"], [("ParaReader / ParaBlock queries", "src/utils/ParaReader.h"), ("CSVBoundaryReader::read_csv_file", A + "Boundary.h")],
     "reader csv_reader", "the reader functions, instantiated for every value type in use, equal their specification programs", over=("inputs",))

prop("P19", "The application builds exactly the meshes its input file describes",
     "Every mesh block of the input file is processed in order; all its parameters reach the domain, the boundaries, the fixed entities, the quad layers, the element color, the algorithm, the refinements and the smoothing they belong to, each with its documented default when absent. "
     "Steps run in the order quad layers, triangulation, conversion, merge with the first mesh, refinement, smoothing; the mesh is written with the given prefix and format and checked, and any failure shows in the exit status of the process.",
     "all input files", "no test runs the application",
     ["src/app/TQMeshApp.h", "src/app/main.cpp", "src/app/size_function.cpp"], [("MeshConstruction::construct_mesh, generate_mesh", "src/app/TQMeshApp.h"), ("TQMeshApp::run", "src/app/TQMeshApp.h")],
     "app", "every step of the application equals its specification program", over=("inputs",))

prop("P29", "Quad layers follow the requested part of the front and respect the boundary",
     "Quad layer generation starts at the front edge leaving the front vertex closest to the start position and ends at the edge arriving at the vertex closest to the end position; exactly the edges in between, both included, carry the layer (for equal positions the whole closed loop). "
     "Each layer has the requested height, limited by the edge length and the local element size, and grows by the growth rate; elements are placed only through the validity gates, two triangles on a base edge are replaced by one active quad only together with their common interior edge, gaps at wedges are closed, and the vertices of the layer are marked. "
     "Where a layer meets the boundary its outer vertex lies on that boundary: a boundary edge is split with both parts keeping color and properties, but boundary corners, fixed vertices and edges shared with a neighboring mesh are neither moved nor split. The remaining front is handed over to the mesh, and failure of a layer is reported. Number, height, growth rate, angle factor and both positions are those the user has set.",
     "all fronts, positions, heights, growth rates and layer counts",
     "tests build a few layers on simple boundaries; the ends of a layer depend on the neighborhood in many ways",
     [A + "QuadLayering.h", A + "MeshingStrategy.h"], [("QuadLayering::generate_elements / generate_quad_layer / find_start_and_ending_edges / close_quad_layer_gap", A + "QuadLayering.h"), ("QuadLayerVertices", A + "QuadLayering.h")],
     "layers opt_layer vectors", "the collection and projection of the base edges, both layer ends, element creation, gap closing and the layer loop equal their specification programs")

prop("P31", "Triangulation succeeds only with an exhausted front; the rest is handed over",
     "Triangulation does nothing and fails on a mesh without boundary edges. Otherwise it starts from the front stored in the mesh, drops the interior edges that stood in for it, and places elements until the front is empty or the requested number of elements is reached (success), or until every front edge has failed even with the wide search radius (failure); each success restarts from the first edge with the normal search radius. "
     "After a failure every front vertex is tried for every front edge, for the remaining number of elements; the result is a failure only if that fails, too. "
     "Whatever remains of the front is stored in the mesh as interior edges, once, its vertices leave the front, the front is emptied, and the cleanup runs only on a valid mesh. "
     "A new vertex is placed on the normal through the middle of the base edge, no farther than the local element size. Element number, search radii, minimum quality and maximum angle are those the user has set; the front is sorted by increasing edge length.",
     "all fronts, element limits and size functions",
     "tests triangulate domains that succeed at the first attempt; failing and partial runs are hardly exercised",
     [A + "Triangulation.h", A + "MeshingStrategy.h"], [("Triangulation::generate_elements / advancing_front_loop / exhaustive_search_loop", A + "Triangulation.h"), ("MeshingStrategy", A + "MeshingStrategy.h")],
     "drivers opt_tri sorts vectors", "both drivers, both loops, the search for a triangle and the hand-over of the front equal their specification programs", over=("histories",))

prop("P26", "Vector arithmetic and tolerant comparison follow their definitions",
     "Sums, differences, products and quotients of vectors and scalars, in both operand orders and as compound assignments, act on each coordinate; the coordinate names x, y and the index operator denote the same storage in every constructed, copied or assigned vector; norm, dot and cross product and the (clamped) angle are the textbook values. "
     "MIN, MAX, ABS, CLAMP and MOD are the mathematical functions (MOD never negative for a positive modulus), and EQ holds exactly for numbers that differ by at most the absolute limit or by the relative limit times the larger magnitude.",
     "all coordinates and scalars, as real numbers",
     "tests add and multiply some vectors; every other computation of the mesh generator rests on all of these operators",
     [U + "VecND.h", U + "MathUtility.h"], [("VecND and its operators", U + "VecND.h"), ("MIN, MAX, ABS, CLAMP, MOD, EQ, EQ0", U + "MathUtility.h")],
     "vectors", "laws over the operators' own code, element by element, reduced to true for all arguments", over=("inputs",))

NA = {}


def na(id, title, statement, text, why, files, mech, reason, over=("inputs",)):
    NA[id] = dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, reason=reason)


na("N01", "Finished meshes tile the domain without gaps or overlaps",
   "When mesh generation reports success, the elements cover the domain exactly and no two elements overlap.",
   "all domains and size functions", "tests mesh some domains and compare the total area",
   [A + "Triangulation.h", A + "MeshChecker.h"], [("FrontUpdate, MeshChecker", A + "FrontUpdate.h")],
   "needs an inductive geometric invariant of the advancing front over runtime coordinates and floating-point tolerances; no static argument in reach bounds these. The gates and the final check that guard it are decided in other properties.")
na("N02", "Mesh generation terminates for every admissible domain",
   "For every domain with valid boundaries and a positive size function the advancing-front loops end.",
   "all domains and size functions", "tests run a finite set of domains",
   [A + "Triangulation.h", A + "QuadLayering.h"], [("generate_elements loops", A + "Triangulation.h")],
   "progress depends on front geometry and tolerances at run time; no variant function is expressible over static facts")
na("N03", "Generated elements follow the size function within a bounded factor",
   "Element edge lengths stay within a bounded factor of the size function at their location, and smoothing does not decrease the smallest element quality.",
   "all domains and size functions", "tests do not measure sizes",
   [A + "FrontUpdate.h", A + "SmoothingStrategy.h"], [("advance_front, smoothing strategies", A + "FrontUpdate.h")],
   "a statement about numerical values reached by an iteration; not decidable from the source without running it")
