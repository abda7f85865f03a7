// Instantiations of the templates the library is used with.

namespace vp_spec { namespace inst {
using namespace TQMesh; using namespace CppUtils;

inline void use_orientation(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::orientation(a,b,c); }

inline void use_is_left(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::is_left(a,b,c); }

inline void use_is_lefton(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::is_lefton(a,b,c); }

inline void use_in_segment(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::in_segment(a,b,c); }

inline void use_in_on_segment(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::in_on_segment(a,b,c); }

inline void use_line_line_crossing(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::line_line_crossing(a,b,c,d); }

inline void use_line_line_intersection(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::line_line_intersection(a,b,c,d); }

inline void use_line_tri_intersection(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::line_tri_intersection(a,b,c,d,a); }

inline void use_line_tri_crossing(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::line_tri_crossing(a,b,c,d,a); }

inline void use_line_quad_intersection(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::line_quad_intersection(a,b,c,d,a,b); }

inline void use_tri_tri_intersection(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::tri_tri_intersection(a,b,c,d,a,b); }

inline void use_quad_quad_intersection(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::quad_quad_intersection(a,b,c,d,a,b,c,d); }

inline void use_tri_quad_intersection(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::tri_quad_intersection(a,b,c,d,a,b,c); }

inline void use_rect_overlap(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::rect_overlap(a,b,c,d); }

inline void use_in_on_rect(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::in_on_rect(a,b,c); }

inline void use_in_rect(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::in_rect(a,b,c); }

inline void use_in_on_triangle(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::in_on_triangle(a,b,c,d); }

inline void use_in_triangle(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::in_triangle(a,b,c,d); }

inline void use_in_on_quad(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::in_on_quad(a,b,c,d,a); }

inline void use_in_quad(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::in_quad(a,b,c,d,a); }

inline void use_distance_point_edge_sqr(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::distance_point_edge_sqr(a,b,c); }

inline void use_segment_overlap(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::segment_overlap(a,b,c,d); }

inline void use_bbox_min(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::bbox_min(a,b); }

inline void use_bbox_max(const Vec2d& a, const Vec2d& b, const Vec2d& c, const Vec2d& d) { (void)CppUtils::bbox_max(a,b); }

inline void use_polygon_area(const std::vector<Vec2d>& v) { (void)CppUtils::polygon_area(v); }

}}

template class CppUtils::QuadTree<TQMesh::Vertex,double>;

template TQMesh::Vertex& CppUtils::Container<TQMesh::Vertex>::front();

template TQMesh::Vertex& CppUtils::Container<TQMesh::Vertex>::back();

template CppUtils::Container<TQMesh::Vertex>::Vector CppUtils::Container<TQMesh::Vertex>::get_items(const CppUtils::Vec2d&, const CppUtils::Vec2d&) const;

template bool TQMesh::Triangle::intersects_triangle<TQMesh::Triangle>(const CppUtils::Container<TQMesh::Triangle>&, const double) const;

template bool TQMesh::Triangle::intersects_quad<TQMesh::Quad>(const CppUtils::Container<TQMesh::Quad>&, const double) const;

template bool TQMesh::Triangle::intersects_front<TQMesh::Front>(const TQMesh::Front&, const double) const;

template bool TQMesh::Quad::intersects_triangle<TQMesh::Triangle>(const CppUtils::Container<TQMesh::Triangle>&, const double) const;

template bool TQMesh::Quad::intersects_quad<TQMesh::Quad>(const CppUtils::Container<TQMesh::Quad>&, const double) const;

template bool TQMesh::Quad::intersects_front<TQMesh::Front>(const TQMesh::Front&, const double) const;

template bool TQMesh::Vertex::intersects_mesh_edges<TQMesh::Mesh>(const TQMesh::Mesh&, const double, const double) const;

template bool TQMesh::QuadGeometry::is_too_close<TQMesh::Quad, TQMesh::Front>(const TQMesh::Quad&, const TQMesh::Front&, const double, const double);

template void TQMesh::MeshCleanup::merge_triangles_to_quads<TQMesh::Mesh>(TQMesh::Mesh&, bool);

template void TQMesh::MeshCleanup::merge_degenerate_triangles<TQMesh::Mesh>(TQMesh::Mesh&, bool);

template class CppUtils::Parameter<double>;

template class CppUtils::Parameter<int>;
