"""Rule groups: each one decides one area of the code; properties compose them."""

C, Q, TQ = "CppUtils::Container::", "CppUtils::QuadTree::", "TQMesh::"


def numbering(c):
    M = TQ + "MeshCleanup::"
    c.spec(M + "assign_mesh_indices", "numbering::assign_mesh_indices")
    c.spec(M + "assign_size_function_to_vertices", "numbering::assign_size_function")
    c.spec(M + "setup_facet_connectivity", "numbering::setup_facet_connectivity")
    c.spec(TQ + "MeshWriter::write", "numbering::write", opaque={M + "assign_size_function_to_vertices", M + "assign_mesh_indices", M + "setup_facet_connectivity",
           TQ + "MeshWriter::write_to_txt", TQ + "MeshWriter::write_to_vtu", TQ + "operator<<"})


def container(c):
    qt = {Q + x for x in ("add", "remove", "get_leaf", "get_items", "get_nearest")}
    kw = dict(model_container=False, opaque=qt)
    c.spec(C + "remove", "container::remove", **kw)
    c.spec(C + "update", "container::update", **kw)
    c.spec(C + "clear_waste", "container::clear_waste", **kw)
    vx = lambda q, **k: [f for f in c.P.find(q, **k) if "Vertex>" in f["clst"]]
    for n in ("size", "front", "back"): c.spec(C + n, "container::" + n, fns=vx(C + n), **kw)
    forms = ("const CppUtils::VecND<double, 2> &",) + tuple(", ".join(["TQMesh::Vertex &"] * n) for n in (3, 4)) + ("TQMesh::Vertex &, TQMesh::Vertex &, TQMesh::EdgeList &, int &",)
    c.spec(C + "insert", "container::insert", fns=[f for f in c.P.find(C + "insert") if f["f"].split("insert<<")[-1].split(">>(")[0] in forms], **kw)
    container_queries(c)
    c.pairs("container", **kw)
    c.only_writers("container::position-writers", "xy_", "CppUtils::ContainerEntry", {C + "update"})
    c.only_writers("container::slot-writers", "pos_", "CppUtils::ContainerEntry", {C + "insert", C + "remove"})
    c.only_writers("container::state-writers", "in_container_", "CppUtils::ContainerEntry", {C + "insert", C + "remove"})


def container_queries(c):
    qt = {Q + x for x in ("add", "remove", "get_leaf", "get_items", "get_nearest")}
    vx = lambda q, **k: [f for f in c.P.find(q, **k) if "Vertex>" in f["clst"]]
    kw = dict(model_container=False, opaque=qt)
    c.spec(C + "get_items", "container::items_rect", fns=vx(C + "get_items", ptypes=("VecND", "VecND")), **kw)
    c.spec(C + "get_items", "container::items_circ", fns=vx(C + "get_items", ptypes=("VecND", "const double")), **kw)


def quadtree(c):
    ops = {Q + x for x in ("add", "remove", "get_items", "get_leaf", "add_item_number", "merge", "pass_children", "split_qtree", "distribute_items")}
    vx = lambda n, **k: [f for f in c.P.find(Q + n, **k) if "Vertex," in f["clst"]]
    sp = lambda n, s=None, o=ops, **k: c.spec(Q + n, "quadtree::" + (s or n), fns=vx(n, **k), opaque=o)
    # forgetting a deleted child is of no consequence: children are looked at only while the node is split
    c.spec(Q + "merge", "quadtree::merge", fns=vx("merge"), opaque=ops, keep=lambda x: not (x.kind == "store" and x.name == "[]" and x.args[0].op == "f" and x.args[0].a[1] == "children_"))
    for n in ("add", "remove", "add_item_number", "pass_children", "split_qtree", "distribute_items", "get_leaf", "update_attributes"): sp(n)
    sp("get_items", "items_rect", ptypes=("VecND", "VecND", "vector", "("))
    c.spec(Q + "get_items", "quadtree::items_circ", fns=[f for f in vx("get_items") if f["params"][1]["t"] == "double"], opaque=ops)
    c.laws("quadtree")
    for m in ("scale_", "halfscale_"): c.only_writers("quadtree::extent-writers", m, "CppUtils::QuadTree", {Q + "update_attributes"})
    c.pairs("quadtree", opaque={Q + "update_attributes", Q + "get_items", Q + "get_leaf"})
    F = "CppUtils::quadtree_"
    for n in ("rect", "circ", "nearest"):
        c.spec(F + n + "_query_fun", "quadtree::%s_query" % n, fns=[f for f in c.P.find(F + n + "_query_fun") if "Vertex *" in f["f"]], levels=[frozenset()])


def geometry(c):
    G = "CppUtils::"
    from interp import strip
    isd = lambda f: all("double" in p["t"] for p in f["params"])
    for n in ("orientation is_left is_lefton in_segment in_on_segment line_line_crossing line_line_intersection line_tri_intersection line_tri_crossing "
              "line_quad_intersection tri_tri_intersection quad_quad_intersection tri_quad_intersection rect_overlap in_on_rect in_rect in_on_triangle in_triangle "
              "in_on_quad in_quad distance_point_edge_sqr segment_overlap polygon_area bbox_min bbox_max").split():
        own = {G + n}
        c.spec(G + n, "geometry::" + n, fns=[f for f in c.P.find(G + n) if isd(f)],
               levels=[(c.geom - own), {G + "line_line_intersection", G + "line_line_crossing"} - own, frozenset()] if "intersection" in n or n == "line_tri_crossing" else [frozenset()])


def vectors(c):
    """the small vectors and scalar helpers, whose meaning all other rules take for granted"""
    c.laws("vectors", raw=True)


def laws(c, ns, **k): c.laws(ns, **k)


def entities(c):
    c.laws("entities", only=None)
    c.pairs("entities")
    T, Qd, E, V = TQ + "Triangle::", TQ + "Quad::", TQ + "Edge::", TQ + "Vertex::"
    c.spec(T + "get_vertex_index", "entities::tri_vertex_index")
    c.spec(T + "get_edge_index", "entities::tri_edge_index")
    c.spec(Qd + "get_vertex_index", "entities::quad_vertex_index")
    c.spec(Qd + "get_edge_index", "entities::quad_edge_index")


def backlinks(c):
    T, Qd, E, V = TQ + "Triangle::", TQ + "Quad::", TQ + "Edge::", TQ + "Vertex::"
    c.spec(E + "container_destructor", "entities::edge_destructor")
    c.spec(T + "container_destructor", "entities::tri_destructor")
    c.spec(Qd + "container_destructor", "entities::quad_destructor")
    for n in ("add_edge", "remove_edge", "add_facet", "remove_facet", "is_adjacent"): c.spec(V + n, "entities::" + n)
    c.spec(E + "get_next_edge", "entities::next_edge")
    c.spec(E + "get_prev_edge", "entities::prev_edge")


def metrics(c):
    T, Qd, E, V = TQ + "Triangle::", TQ + "Quad::", TQ + "Edge::", TQ + "Vertex::"
    c.spec(E + "update_metrics", "entities::edge_metrics")
    c.spec(T + "update_metrics", "entities::tri_metrics")
    c.spec(Qd + "update_metrics", "entities::quad_metrics")
    c.spec(V + "adjust_xy", "entities::adjust_xy")


def geometry_core(c): geometry(c)


def vtu_txt(c):
    c.spec(TQ + "MeshWriter::write_to_txt", "exports::txt", levels=[{TQ + "operator<<"}])


def facetgeom(c):
    """formulas and overlap tests of the two element kinds"""
    for K, n in (("Triangle", 3), ("Quad", 4)):
        G, E = TQ + K + "Geometry::", TQ + K + "::"
        for f, s in (("calc_centroid", "centroid"), ("calc_area", "area"), ("calc_edge_length", "edge_length"), ("calc_angles", "angles"),
                     ("calc_shape_factor", "shape_factor"), ("calc_quality", "quality"), ("check_validity", "validity")):
            c.spec(G + f, "facetgeom::" + s, levels=[frozenset()])
        c.spec(G + "check_intersection", "facetgeom::hits", opaque=overlap_leaves(c), levels=[overlap_leaves(c)])
        cg = {G + x for x in ("check_intersection", "calc_quality", "check_validity")}
        for f, s in (("quality", "el_quality"), ("is_valid", "el_valid"), ("intersects_vertex", "el_vertex"), ("intersects_domain", "el_domain"),
                     ("intersects_triangle", "el_triangle"), ("intersects_quad", "el_quad"), ("intersects_front", "el_front")):
            c.spec(E + f, "facetgeom::" + s, levels=[cg, overlap_leaves(c)])
    c.spec(TQ + "TriangleGeometry::calc_circumcenter", "facetgeom::circumcenter", levels=[frozenset()])
    c.spec(TQ + "TriangleGeometry::calc_circumradius", "facetgeom::tri_radius", levels=[frozenset()])
    c.spec(TQ + "QuadGeometry::calc_circumcenter", "facetgeom::quad_center", levels=[frozenset()])
    c.spec(TQ + "QuadGeometry::calc_circumradius", "facetgeom::quad_radius", levels=[frozenset()])
    c.spec(TQ + "QuadGeometry::is_too_close", "facetgeom::too_close", levels=[overlap_leaves(c)])
    c.spec(TQ + "Vertex::intersects_facet", "facetgeom::vertex_hits", levels=[overlap_leaves(c) | {TQ + "Triangle::intersects_vertex", TQ + "Quad::intersects_vertex"}, overlap_leaves(c)])
    c.spec(TQ + "Vertex::intersects_mesh_edges", "facetgeom::vertex_near_edges", levels=[overlap_leaves(c)])


def overlap_leaves(c):
    """point and segment predicates of Geometry.h plus the spatial look-ups"""
    return {q for q in c.geom if q.startswith("CppUtils::")} | {C + "get_items", TQ + "Domain::get_boundary_edges", TQ + "Domain::is_inside", TQ + "Mesh::get_intr_edges", TQ + "Mesh::get_bdry_edges"}


M = TQ + "Mesh::"


def mesh_store(c):
    """creation, removal, look-up and counting of mesh entities"""
    c.laws("mesh")
    c.pairs("mesh", opaque={C + "get_items"})
    el = {TQ + "EdgeList::" + x for x in ("add_edge", "get_edge", "get_edges", "remove", "clear_waste", "size")}
    cont = {C + x for x in ("get_items",)}
    for n in "add_triangle add_quad add_vertex add_interior_edge add_boundary_edge remove_vertex remove_triangle remove_quad remove_interior_edge remove_boundary_edge clear_waste is_empty get_interior_edge get_boundary_edge get_edge get_vertices get_triangles get_quads get_intr_edges get_bdry_edges".split():
        c.spec(M + n, "mesh::" + n, levels=[el | cont, cont])


def mesh_edges(c):
    for n, s in (("get_valid_interior_edges", "valid_interior"), ("get_valid_boundary_edges", "valid_boundary"), ("get_interface_edges", "interface_edges"), ("get_front_edges", "front_edges")):
        c.spec(M + n, "mesh::" + s)


def text_export(c):
    mesh_edges(c)
    ed = {M + n for n in ("get_valid_interior_edges", "get_valid_boundary_edges", "get_interface_edges", "get_front_edges")}
    fn = [f for f in c.P.find(TQ + "operator<<") if f["params"][-1]["t"].endswith("Mesh &")]
    c.spec(TQ + "operator<<", "exports::text", fns=fn, levels=[ed, frozenset()])


def vtu_export(c):
    W, V, D = TQ + "MeshWriter::", "CppUtils::VtuWriter::", "CppUtils::VtkIOData::"
    wr = {V + x for x in ("write", "add_point_data", "add_cell_data", "VtuWriter")}
    c.spec(W + "write_to_txt", "exports::txt", levels=[{TQ + "operator<<"}])
    el = {TQ + K + "::" + f for K in ("Triangle", "Quad") for f in ("quality", "max_edge_length", "max_angle", "color")}
    c.spec(W + "write_to_vtu", "exports::vtu", levels=[wr | el | {TQ + "Domain::size_function"}])
    parts = {V + x for x in ("write_point_data", "write_cell_data", "write_points", "write_cells")}
    c.spec(V + "write", "exports::vtu_file", levels=[parts, frozenset()])
    for n, s in (("write_point_data", "point_data"), ("write_cell_data", "cell_data"), ("write_points", "points"), ("write_cells", "cells")):
        c.spec(V + n, "exports::" + s, levels=[{D + "write_data"}])
    c.spec(V + "add_point_data", "exports::to_points")
    c.spec(V + "add_cell_data", "exports::to_cells")
    c.laws("exports")
    c.pairs("exports", levels=[frozenset()])
    for t in ("int", "double"):
        c.spec(D + "write_data", "exports::data_" + t[0], fns=[f for f in c.P.find(D + "write_data") if f["clst"].endswith("<%s>" % t)])


EL = TQ + "EdgeList::"


def edgelist(c):
    c.laws("edgelist")
    ins = {EL + x for x in ("insert_edge", "compute_area", "mark_objects", "remove", "get_edge_dir", "get_edge_nodir")}
    nav = {TQ + "Edge::get_next_edge", TQ + "Edge::get_prev_edge", C + "get_items"}
    c.pairs("edgelist", opaque=ins)
    for n in "insert_edge add_edge remove clear_edges split_edge get_edge_dir get_edge_nodir get_closest_vertex compute_area check_orientation is_traversable".split():
        c.spec(EL + n, "edgelist::" + n, levels=[(ins | nav) - {EL + n}, nav])
    c.spec(EL + "get_edge", "edgelist::get_edge", levels=[ins])
    c.spec(EL + "is_inside", "edgelist::is_inside", fns=[f for f in c.P.find(EL + "is_inside") if "VecND" in f["params"][0]["t"]], levels=[{"CppUtils::in_on_segment"}])
    for n in ("intersects_self", "intersects_edgelist"): c.spec(EL + n, "edgelist::" + n, levels=[nav | {"CppUtils::line_line_intersection"}])


D, BD = TQ + "Domain::", TQ + "Boundary::"


def domain(c):
    """point-in-domain, measures, look-ups and registration of domain entities"""
    bd = {EL + x for x in ("is_inside", "get_edges", "add_edge", "insert_edge", "area")} | {TQ + "Boundary::" + x for x in ("is_inside", "insert_edge", "add_edge")}
    c.spec(D + "is_inside", "domain::is_inside", fns=[f for f in c.P.find(D + "is_inside") if "Vertex" in f["params"][0]["t"]], levels=[bd])
    c.spec(D + "area", "domain::area", levels=[frozenset()])
    c.spec(D + "get_boundary_edges", "domain::get_boundary_edges", levels=[bd])
    c.spec(D + "extent", "domain::extent", levels=[frozenset()])
    from interp import strip
    d4 = lambda f: len(f["params"]) == 4 and all(strip(p["t"]) == "double" for p in f["params"])
    for n in ("add_vertex", "add_fixed_vertex"): c.spec(D + n, "domain::" + n, fns=[f for f in c.P.find(D + n) if d4(f)], levels=[bd])
    c.spec(D + "add_fixed_edge", "domain::add_fixed_edge", levels=[bd])
    c.spec(D + "count_edge_overlaps", "domain::count_edge_overlaps", levels=[bd | {"CppUtils::segment_overlap", D + "get_boundary_edges"}])
    c.laws("domain")


def sizefun(c):
    c.spec(TQ + "SizeFunction::evaluate", "domain::evaluate", levels=[frozenset()])
    c.spec(D + "size_function", "domain::size_function", levels=[{TQ + "SizeFunction::evaluate"}])


def opt_domain(c):
    """registering and removing what a domain is made of"""
    c.pairs("opt_domain", levels=[{C + "remove", EL + "remove", BD + "ctor"}])


def size_export(c):
    c.spec(TQ + "SizeFunction::export_size_function", "opt_domain::grid", levels=[{TQ + "SizeFunction::evaluate"}])


def opt_tri(c): c.pairs("opt_tri"); c.laws("opt_tri")


def opt_layer(c): c.pairs("opt_layer"); c.laws("opt_layer")


def opt_smooth(c): c.pairs("opt_smooth")


def shapes(c):
    el = {EL + "insert_edge", "CppUtils::polygon_area", C + "get_nearest"}
    c.laws("domain")
    c.spec(BD + "insert_edge", "domain::insert_edge", levels=[el])
    c.spec(BD + "add_edge", "domain::add_edge", levels=[el | {BD + "insert_edge"}, el])
    cb = {BD + "create_boundary_shape"}
    c.spec(BD + "create_boundary_shape", "domain::shape", levels=[el | {BD + "add_edge"}])
    for f in c.P.find(BD + "set_shape_from_coordinates"):
        c.spec(BD + "set_shape_from_coordinates", "domain::shape_coords%d" % len(f["params"]), fns=[f], levels=[cb])
    c.spec(BD + "set_shape_from_csv", "domain::shape_csv", levels=[cb | {TQ + "CSVBoundaryReader::CSVBoundaryReader"}])
    sh = {BD + "set_shape_" + x for x in ("rectangle", "circle", "square", "triangle")}
    for n in ("square", "triangle", "rectangle", "circle"):
        c.spec(BD + "set_shape_" + n, "domain::shape_" + n, levels=[(cb | sh) - {BD + "set_shape_" + n}, cb])


def validity(c):
    """the verdicts 'valid domain' and 'complete mesh'"""
    c.laws("completeness")
    K = TQ + "EntityChecks::"
    el = {EL + x for x in ("is_traversable", "intersects_self", "intersects_edgelist")}
    c.spec(K + "check_domain_validity", "completeness::domain_valid", levels=[el])
    c.spec(K + "check_mesh_validity", "completeness::mesh_valid", levels=[{TQ + x + "::get_edge_index" for x in ("Facet", "Triangle", "Quad")}])
    c.spec(TQ + "MeshChecker::check_completeness", "completeness::complete", levels=[{K + "check_mesh_validity", TQ + "MeshCleanup::assign_mesh_indices", TQ + "MeshCleanup::setup_facet_connectivity",
           M + "get_front_edges", D + "extent", D + "area", M + "area"}])


F, FU = TQ + "Front::", TQ + "FrontUpdate::"


def gates(c):
    """what a new vertex or triangle has to pass before it stays in the mesh"""
    tests = {TQ + K + "::" + x for K in ("Triangle", "Quad", "Vertex") for x in ("is_valid", "intersects_front", "intersects_domain", "intersects_vertex", "intersects_triangle", "intersects_quad", "intersects_facet", "quality", "max_angle", "max_edge_length")}
    tests |= {D + "size_function", D + "is_inside"}
    c.spec(FU + "triangle_is_valid", "front::tri_ok", levels=[tests])
    c.spec(FU + "vertex_is_valid", "front::vertex_ok", levels=[tests])
    ok = {FU + "triangle_is_valid", FU + "vertex_is_valid"}
    ms = {M + x for x in ("remove_vertex", "remove_triangle", "remove_quad", "add_vertex", "add_triangle", "add_interior_edge", "add_area")}
    for f in c.P.find(FU + "remove_from_mesh_if_invalid"):
        c.spec(FU + "remove_from_mesh_if_invalid", "front::drop_" + "".join("v" if "Vertex" in p["t"] else "t" for p in f["params"]), fns=[f], levels=[ok | ms])
    inv = {FU + "remove_from_mesh_if_invalid"}
    c.spec(FU + "create_possible_triangles", "front::candidates", levels=[inv | ms | {"CppUtils::orientation", C + "get_items"}])
    c.spec(FU + "choose_best_triangle", "front::best", levels=[{D + "size_function", TQ + "Triangle::quality"}])
    steps = inv | ms | {FU + "create_possible_triangles", FU + "choose_best_triangle", FU + "advance_front"}
    c.spec(FU + "update_front", "front::update", levels=[steps])
    c.spec(FU + "update_front_exhaustive", "front::update_exhaustive", levels=[steps | {"CppUtils::orientation"}])


def advance(c):
    el = {EL + x for x in ("get_edge", "remove", "add_edge", "insert_edge")}
    ms = {M + x for x in ("add_interior_edge", "add_area")}
    c.spec(FU + "update_front_state", "front::state")
    c.spec(FU + "advance_front", "front::advance", fns=[f for f in c.P.find(FU + "advance_front") if "Triangle" in f["params"][-1]["t"]], levels=[el | ms | {FU + "update_front_state"}])
    c.spec(F + "set_base_first", "front::base_first")
    c.spec(F + "set_base_next", "front::base_next")


def drivers(c):
    """the loops that place elements: start, end, hand-over of the front"""
    S = TQ + "MeshingStrategy::"; T = TQ + "Triangulation::"
    fr = {F + x for x in ("init_front", "set_base_first", "set_base_next", "sort_edges", "clear_edges")} | {EL + x for x in ("clear_edges", "get_edge", "add_edge", "remove")}
    ms = {M + x for x in ("get_front_edges", "remove_interior_edge", "add_interior_edge", "clear_waste", "n_boundary_edges")}
    st = {S + x for x in ("init_advancing_front", "remove_invalid_mesh_edges", "add_remaining_front_edges_to_mesh", "update_progress_bar")}
    tr = {T + x for x in ("advancing_front_loop", "exhaustive_search_loop", "advance_front_triangle", "exhaustive_search_triangle")}
    cl = {MC + x for x in ("setup_facet_connectivity", "clear_double_quad_edges", "clear_double_triangle_edges", "merge_degenerate_triangles")} | {TQ + "EntityChecks::check_mesh_validity"}
    up = {FU + x for x in ("update_front", "update_front_exhaustive")} | {D + "size_function"}
    every = fr | ms | st | tr | cl | up
    c.spec(S + "init_advancing_front", "drive::start", levels=[every - {S + "init_advancing_front"}])
    c.spec(S + "remove_invalid_mesh_edges", "drive::drop_stale", levels=[every - {S + "remove_invalid_mesh_edges"}])
    c.spec(S + "add_remaining_front_edges_to_mesh", "drive::keep_rest", levels=[every - {S + "add_remaining_front_edges_to_mesh"}])
    for n, s in (("generate_elements", "triangulate"), ("generate_elements_exhaustive", "triangulate_exhaustive"), ("advance_front_triangle", "advance_triangle"),
                 ("advancing_front_loop", "front_loop"), ("exhaustive_search_loop", "exhaustive_loop"), ("exhaustive_search_triangle", "exhaustive_triangle")):
        c.spec(T + n, "drive::" + s, levels=[every - {T + n}])


def layers(c):
    """quad layers along part of the front"""
    L = TQ + "QuadLayering::"; V = TQ + "QuadLayerVertices::"; S = TQ + "MeshingStrategy::"
    own = {L + x for x in ("generate_quad_layer", "find_next_layer_endings", "create_quad_layer", "create_quad_layer_element", "finish_quad_layer", "close_quad_layer_gap", "find_start_and_ending_edges")}
    lv = {V + x for x in ("smooth_heights", "setup_vertex_projection", "adjust_projected_vertex_coordinates", "place_start_vertex", "place_end_vertex", "add_quadlayer_edge", "ctor")}
    st = {S + x for x in ("init_advancing_front", "remove_invalid_mesh_edges", "add_remaining_front_edges_to_mesh", "update_progress_bar")}
    el = {EL + x for x in ("get_edge", "insert_edge", "add_edge", "remove", "split_edge", "is_traversable", "clear_edges", "get_closest_vertex")} | {F + x for x in ("get_edge", "get_closest_vertex", "clear_edges")}
    fu = {FU + x for x in ("update_front", "advance_front", "remove_from_mesh_if_invalid")} | {D + "size_function"}
    ms = {M + x for x in ("add_vertex", "add_triangle", "add_quad", "remove_triangle", "remove_interior_edge", "clear_waste", "n_boundary_edges")}
    mc = {MC + "setup_facet_connectivity", MC + "set_vertex_coordinates"}
    every = own | lv | st | el | fu | ms | mc
    for K, n, s in ((L, "generate_elements", "layers"), (L, "generate_quad_layer", "one_layer"), (L, "find_next_layer_endings", "next_ends"), (L, "create_quad_layer", "make_layer"),
                    (L, "create_quad_layer_element", "layer_element"), (L, "finish_quad_layer", "finish_layer"), (L, "close_quad_layer_gap", "close_gap"), (L, "find_start_and_ending_edges", "layer_ends"),
                    (V, "add_quadlayer_edge", "layer_edge"), (V, "smooth_heights", "layer_heights"), (V, "setup_vertex_projection", "layer_projection"),
                    (V, "adjust_projected_vertex_coordinates", "layer_corner"), (V, "place_start_vertex", "layer_begin"), (V, "place_end_vertex", "layer_end")):
        c.spec(K + n, "drive::" + s, levels=[every - {K + n}])
    c.spec(V + "ctor", "drive::layer_collect", levels=[every - {V + "ctor"}])

def frontinit(c):
    el = {EL + x for x in ("get_edge", "remove", "add_edge", "insert_edge", "compute_area")}
    fi = lambda q: [f for f in c.P.find(q) if not f["q"].startswith("vp")]
    two = [f for f in c.P.find(F + "init_front")]
    sub = {F + x for x in ("init_mesh_vertices", "init_front_edges", "mark_twin_edges", "refine_front_edges")} | el
    c.spec(F + "init_front", "front::from_domain", fns=[f for f in two if len(f["params"]) == 3], levels=[sub])
    c.spec(F + "init_front", "front::from_mesh", fns=[f for f in two if len(f["params"]) == 1], levels=[el | {M + "get_front_edges"}])
    c.spec(F + "init_mesh_vertices", "front::make_vertices", levels=[el])
    c.spec(F + "init_front_edges", "front::make_edges", levels=[el])
    c.spec(F + "mark_twin_edges", "front::twins", levels=[el])
    c.spec(F + "get_edges_to_refine", "front::to_refine", levels=[el])
    rf = {F + x for x in ("get_edges_to_refine", "refine_edge", "create_sub_vertex_coords", "create_sub_edges")}
    c.spec(F + "refine_front_edges", "front::refine", levels=[el | rf])
    c.spec(F + "refine_edge", "front::refine_one", levels=[(el | rf) - {F + "refine_edge"}])
    c.spec(F + "create_sub_edges", "front::sub_edges", levels=[el])
    I = TQ + "FrontInitData::"
    c.laws("front", opaque={I + "collect_front_edges"})
    ii = {I + x for x in ("get_neighbor_mesh_edges", "add_edge_data", "add_edge_vertex")}
    c.spec(I + "collect_front_edges", "front::collect", levels=[ii])
    c.spec(I + "get_neighbor_mesh_edges", "front::neighbors", levels=[{M + "get_bdry_edges", "CppUtils::in_on_segment"}])
    c.spec(I + "add_edge_data", "front::add_data", levels=[{I + "add_edge_vertex"}])
    c.spec(I + "add_edge_vertex", "front::number_of", levels=[frozenset()])
    c.spec(F + "create_sub_vertex_coords", "front::places", levels=[{D + "size_function"}])
    sorts(c)


def sorts(c):
    fs = c.P.find(F + "sort_edges")
    c.spec(F + "sort_edges", "front::by_length", fns=[f for f in fs if len(f["params"]) == 1], levels=[{F + "set_base_first"}])
    c.spec(F + "sort_edges", "front::by_distance", fns=[f for f in fs if len(f["params"]) == 2], levels=[{F + "set_base_first"}])


MB, MM, MG = TQ + "MeshBuilder::", TQ + "MeshMerger::", TQ + "MeshGenerator::"


def builder(c):
    c.spec(MB + "get_domain", "build::get_domain")
    c.spec(MB + "add_mesh_and_domain", "build::add_pair")
    c.spec(MB + "remove_mesh_and_domain", "build::remove_pair")
    c.spec(MB + "prepare_mesh", "build::prepare", levels=[{M + "is_empty", M + "add_vertex", TQ + "EntityChecks::check_domain_validity", F + "init_front", TQ + "FrontInitData::collect_front_edges", EL + "add_edge"}])


def merger(c):
    ms = {M + x for x in ("add_vertex", "add_quad", "add_triangle", "remove_boundary_edge", "clear_waste")} | {EL + "add_edge"}
    st = {MM + x for x in ("collect_interface_boundary_vertices", "copy_donor_vertices", "copy_donor_quads", "copy_donor_triangles", "copy_donor_interior_edges", "copy_donor_boundary_edges", "convert_boundary_interface_edges")}
    c.spec(MM + "merge", "build::merge", levels=[st | {TQ + "MeshCleanup::setup_facet_connectivity", TQ + "MeshCleanup::assign_mesh_indices"}])
    for n, s in (("collect_interface_boundary_vertices", "shared"), ("copy_donor_vertices", "copy_vertices"), ("copy_donor_quads", "copy_quads"), ("copy_donor_triangles", "copy_triangles"),
                 ("copy_donor_interior_edges", "copy_interior"), ("copy_donor_boundary_edges", "copy_boundary"), ("convert_boundary_interface_edges", "dissolve")):
        c.spec(MM + n, "build::" + s, levels=[ms])
    c.spec(MG + "merge_meshes", "build::merge_meshes", levels=[{MM + "merge", MB + "get_domain", MB + "remove_mesh_and_domain"}])


def generator(c):
    mb = {MB + x for x in ("get_domain", "create_empty_mesh_ptr", "prepare_mesh", "add_mesh_and_domain", "remove_mesh_and_domain")}
    c.spec(MG + "new_mesh", "build::new_mesh", levels=[mb])
    c.spec(MG + "write_mesh", "build::write_mesh", levels=[mb | {TQ + "MeshWriter::write"}])
    c.spec(MG + "mesh", "build::mesh")
    c.spec(MG + "is_valid", "build::is_valid", levels=[mb])
    for f in c.P.find(MG + "set_algorithm"):
        k = f["params"][1]["t"].replace("Algorithm", "").split("::")[-1].lower()
        c.spec(MG + "set_algorithm", "build::set_" + k, fns=[f], levels=[mb])
    for n in "quad_layer_generation triangulation laplace_smoothing torsion_smoothing mixed_smoothing quad_refinement tri2quad_modification".split():
        c.spec(MG + n, "build::" + n, levels=[mb | {MG + "set_algorithm"}])


RF, TQm, MC = TQ + "QuadRefinement::", TQ + "Tri2QuadModification::", TQ + "MeshCleanup::"
STORE = {M + x for x in ("add_vertex", "add_triangle", "add_quad", "add_interior_edge", "add_boundary_edge", "remove_vertex", "remove_triangle", "remove_quad", "remove_interior_edge", "remove_boundary_edge",
                         "clear_waste", "get_edge", "get_interior_edge", "get_boundary_edge")} | {EL + x for x in ("add_edge", "insert_edge", "get_edge")}


def moves(c):
    c.spec(MC + "set_vertex_coordinates", "modify::move_vertex", levels=[{TQ + K + "::update_metrics" for K in ("Edge", "Triangle", "Quad", "Facet", "NullFacet")} | {TQ + "Vertex::adjust_xy"}])


def refinement(c):
    steps = {RF + x for x in ("gather_entities_to_refine", "refine_interior_edges", "refine_boundary_edges", "refine_triangles", "refine_quads", "remove_old_entities")}
    c.family((RF + "refine", "modify::refine", [STORE | steps, STORE]), [(RF + n, "modify::" + s, [STORE]) for n, s in (("gather_entities_to_refine", "gather"), ("refine_interior_edges", "halve_interior"), ("refine_boundary_edges", "halve_boundary"), ("refine_triangles", "tri_quads"),
                 ("refine_quads", "quad_quads"), ("remove_old_entities", "drop_coarse"))],
             {"coarse_intr_edges_", "coarse_bdry_edges_", "coarse_quads_", "coarse_tris_"}, STORE)


def tri2quad(c):
    cl = {MC + x for x in ("setup_facet_connectivity", "assign_mesh_indices", "clear_double_quad_edges", "clear_double_triangle_edges")}
    geo = {TQ + K + "::" + x for K in ("Facet", "Triangle", "Quad", "NullFacet") for x in ("min_edge_length", "get_edge_index", "vertex", "n_vertices", "color")}
    st = {TQm + x for x in ("collect_triangle_edges", "merge_triangles_to_quads")}
    c.family((TQm + "modify", "modify::convert", [STORE | cl | st, STORE | cl | geo]),
             [(TQm + "collect_triangle_edges", "modify::collect_edges", [STORE | geo]), (TQm + "merge_triangles_to_quads", "modify::fuse_all", [STORE | geo])],
             {"tri_edges_"}, STORE | cl | geo)
    c.spec(MC + "merge_triangles_to_quads", "modify::fuse_pass", levels=[STORE | geo | cl])
    con = {MC + "setup_facet_connectivity", MC + "assign_mesh_indices"}
    geo |= {TQ + K + "::" + x for K in ("Facet", "Triangle", "Quad", "NullFacet") for x in ("neighbor", "index", "get_vertex_index")}
    c.spec(MC + "clear_double_quad_edges", "modify::clear_quads", levels=[STORE | geo | con])
    c.spec(MC + "clear_double_triangle_edges", "modify::clear_tris", levels=[STORE | geo | con])
    c.spec(MC + "merge_degenerate_triangles", "modify::merge_three", levels=[STORE | geo | con | {"CppUtils::orientation"}])


SM = TQ + "SmoothingStrategy::"


def smoothing(c):
    """which vertices move, which positions are kept, and where the strategies want to go"""
    mv = {MC + "set_vertex_coordinates", MC + "setup_facet_connectivity", D + "is_inside", EL + "get_edges", EL + "get_nearest_edge"} | {TQ + K + "::max_edge_length" for K in ("Facet", "Triangle", "Quad", "NullFacet")}
    st = {SM + x for x in ("smoothing_iteration", "smoothing_loop", "check_new_vertex_coordinate", "new_vertex_position_is_valid", "init_vertex_connectivity", "collect_dispalcement_directions")}
    disp = {TQ + K + "::compute_displacement" for K in ("SmoothingStrategy", "LaplaceSmoothing", "TorsionSmoothing", "MixedSmoothing")}
    geo = {"CppUtils::orientation", "CppUtils::line_line_crossing", "CppUtils::angle"}
    c.laws("smooth", only={"law_defaults"})
    c.spec(SM + "smoothing_iteration", "smooth::iteration", levels=[(mv | st | disp) - {SM + "smoothing_iteration"}])
    c.spec(SM + "check_new_vertex_coordinate", "smooth::inside", levels=[mv])
    c.spec(SM + "new_vertex_position_is_valid", "smooth::position_ok", levels=[mv | geo])
    c.spec(SM + "smoothing_loop", "smooth::loop", levels=[mv | st - {SM + "smoothing_loop"}])
    c.spec(SM + "init_vertex_connectivity", "smooth::neighbors", levels=[mv])
    c.spec(SM + "collect_dispalcement_directions", "smooth::directions", levels=[mv], known="smooth::directions_known")
    c.spec(TQ + "LaplaceSmoothing::compute_displacement", "smooth::laplace", levels=[frozenset()])
    c.spec(TQ + "TorsionSmoothing::compute_displacement", "smooth::torsion", levels=[geo])
    for k, s in (("LaplaceSmoothing", "run_laplace"), ("TorsionSmoothing", "run_torsion"), ("MixedSmoothing", "run_mixed")):
        c.spec(TQ + k + "::smooth", "smooth::" + s, levels=[mv | st])



def owned_deletion(c):
    """an object deleted through a pointer to its base class runs its own destructor"""
    import re
    R = c.P.recs
    bare = lambda t: re.sub(r"^(class|struct) |^const ", "", t).strip()
    kids = {}
    for r in R.values():
        if r["t"].startswith("vp_"): continue
        for b in r["bases"]: kids.setdefault(bare(b), []).append(r["t"])
    virt = lambda t: t in R and (R[t]["vdtor"] or any(virt(bare(b)) for b in R[t]["bases"]))
    seen, n = {}, 0
    def use(t, l): seen.setdefault(bare(t), l)
    up = re.compile(r"(?:unique_ptr|shared_ptr)<((?:[^<>,]|<[^<>]*>)+)[,>]")
    from rules import walk
    for r in R.values():
        for f in r["fields"]:
            for m in up.findall(f["t"]): use(m, r["l"])
    for f in c.P.funs.values():
        for p in f["params"]:
            for m in up.findall(p["t"]): use(m, f["l"])
        for e in walk(f.get("body")):
            if isinstance(e.get("t"), str):
                for m in up.findall(e["t"]): use(m, f["l"])
            if e["k"] == "delete" and isinstance(e.get("t"), str): use(e["t"].rstrip("* "), e.get("l", f["l"]))
    for t in sorted(seen):
        if t in R and kids.get(t): c.require(virt(t), "lifetime::virtual-destructor[%s]" % t, R[t]["l"], "objects of classes derived from %s (%s) are deleted through it, but its destructor is not virtual (owned at %s)" % (t, ", ".join(sorted(kids[t])[:3]), c.rel(seen[t]))); n += 1
    if not n: c.undecided("lifetime::virtual-destructor", "recs", "no owning pointer to a base class found")


CO, PR = TQ + "MeshConstruction::", "CppUtils::ParaBlock::"


def app(c):
    rd = {PR + x for x in ("query", "get_value", "get_parameter", "get_block", "new_block_parameter", "new_scalar_parameter", "new_vector_parameter", "new_matrix_parameter")} | {CO + "print_parameter", "init_size_function"}
    rd |= {"CppUtils::Parameter::" + x for x in ("get_value", "rows", "columns")}
    dm = {D + x for x in ("add_vertex", "add_fixed_vertex", "add_fixed_edge", "add_exterior_boundary", "add_interior_boundary")} | {BD + x for x in ("add_edge", "set_shape_from_coordinates", "set_shape_rectangle", "set_shape_circle", "set_shape_square", "set_shape_triangle", "set_shape_from_csv")}
    st = {f["q"] for f in c.P.funs.values() if f["q"].startswith(CO)}
    c.spec(CO + "construct_mesh", "app::construct", levels=[rd | st - {CO + "construct_mesh"}])
    for n, s in (("init_smoothing_parameters", "smoothing"), ("init_refinement_parameters", "refinement"), ("init_meshing_algorithm", "algorithm"), ("init_element_color", "color"), ("init_quad_layers", "layers"),
                 ("init_fixed_vertices", "fixed_vertices"), ("init_mesh_vertices", "vertices"), ("init_domain_vertices", "domain_vertices"), ("init_fixed_edges", "fixed_edges"),
                 ("query_mandatory_parameters", "mandatory"), ("init_mesh_domain", "make_domain"),
                 ("init_exterior_boundary", "exterior"), ("init_interior_boundaries", "interior")):
        c.spec(CO + n, "app::" + s, levels=[rd | dm])
    gen = {f["q"] for f in c.P.funs.values() if f["q"].startswith(MG)} | {TQ + K + "::" + x for K in ("MeshingStrategy", "QuadLayering", "Triangulation", "MixedSmoothing", "QuadRefinement", "Tri2QuadModification", "SmoothingStrategy", "RefinementStrategy", "ModificationStrategy")
           for x in ("generate_elements", "modify", "refine", "smooth", "show_progress", "n_layers", "first_height", "growth_rate", "starting_position", "ending_position", "quad_layer_smoothing")} | {TQ + "MeshChecker::check_completeness"}
    c.spec(CO + "generate_mesh", "app::generate", levels=[gen, {q for q in gen if q.split("::")[-1] not in ("show_progress", "n_layers", "first_height", "growth_rate", "starting_position", "ending_position", "quad_layer_smoothing")}])
    c.spec(TQ + "TQMeshApp::init_parameter_file_reader", "app::keys", levels=[rd])
    c.spec(TQ + "TQMeshApp::run", "app::run", levels=[rd | {CO + "construct_mesh"}])
    c.spec("main", "app::entry", levels=[{TQ + "TQMeshApp::run", TQ + "TQMeshApp::init_parameter_file_reader", PR + "read_content"}])
    c.pairs("app", levels=[frozenset()])


PA = "CppUtils::Parameter::"


def reader(c):
    """the parameter file reader"""
    some = lambda q, n=None, t=("double", "int"): [f for f in c.P.find(q) if (n is None or len(f["params"]) == n) and any("<%s>" % x in f["f"] for x in t)]
    one = {PR + x for x in ("get_parameter", "get_block", "query_scalar", "query_vector", "query_matrix", "process_vector_query", "process_matrix_query", "string_to_single_value")} | {"CppUtils::ParameterBase::get_query_data"}
    val = {PA + x for x in ("get_value", "set_value", "add_row", "resize")}
    for n, k, s in (("get_value", 1, "value1"), ("get_value", 2, "value2"), ("set_value", 2, "put1"), ("set_value", 3, "put2"), ("add_row", 0, "add_row"), ("resize", 0, "resize")):
        c.spec(PA + n, "reader::" + s, fns=some(PA + n, k), levels=[frozenset()])
    c.spec("CppUtils::ParameterBase::get_query_data", "reader::find", levels=[frozenset()])
    everything = ("double", "int", "bool", "unsigned long", "std::basic_string<char, std::char_traits<char>, std::allocator<char>>")
    for n, s, t in (("query_scalar", "scalar", everything), ("query_vector", "vector", ("double", "int")), ("query_matrix", "matrix", ("double", "int")), ("process_vector_query", "row", ("double", "int")),
                    ("process_matrix_query", "table", ("double", "int")), ("string_to_single_value", "parse", everything), ("get_parameter", "parameter", ("double", "int")),
                    ("new_scalar_parameter", "add_scalar", ("double", "int")), ("new_vector_parameter", "add_vector", ("double",)), ("new_matrix_parameter", "add_matrix", ("double", "int"))):
        c.spec(PR + n, "reader::" + s, fns=some(PR + n, None, t), levels=[(one | val) - {PR + n}])
    c.spec(PR + "get_value", "reader::first", fns=some(PR + "get_value", 1), levels=[one | val])
    c.spec(PR + "query", "reader::query", fns=some(PR + "query", 3), levels=[one])
    c.spec(PR + "query", "reader::block", fns=[f for f in c.P.find(PR + "query") if len(f["params"]) == 1], levels=[one])
    c.spec(PR + "get_block", "reader::sub", levels=[frozenset()])
    c.spec(PR + "read_content", "reader::content", levels=[frozenset()])
    c.spec(PR + "new_block_parameter", "reader::add_block", levels=[frozenset()])
    csv_reader(c)


def csv_reader(c):
    c.spec(TQ + "CSVBoundaryReader::read_csv_file", "reader::csv", levels=[frozenset()])
