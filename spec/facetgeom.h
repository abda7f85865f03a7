// Specification programs: element geometry (centroid, area, lengths, angles, quality) and overlap tests.
namespace vp_spec { namespace facetgeom {
using namespace TQMesh; using namespace CppUtils;
inline double len(const Vertex& a, const Vertex& b) { const double x = b.xy().x - a.xy().x, y = b.xy().y - a.xy().y; return sqrt(x * x + y * y); }
inline double twice_area(const Vertex& a, const Vertex& b, const Vertex& c) { return (b.xy().x - a.xy().x) * (c.xy().y - a.xy().y) - (b.xy().y - a.xy().y) * (c.xy().x - a.xy().x); }
inline double angle_cos(const Vertex& a, const Vertex& b, const Vertex& c) { return (b.xy().x - a.xy().x) * (c.xy().x - a.xy().x) + (b.xy().y - a.xy().y) * (c.xy().y - a.xy().y); }
inline double ratio(double l, double h) { return MIN(l / h, h / l); }
inline bool corner(const Vertex& v, const Triangle& t) { return &v == &t.v1() || &v == &t.v2() || &v == &t.v3(); }
inline bool corner(const Vertex& v, const Quad& t) { return &v == &t.v1() || &v == &t.v2() || &v == &t.v3() || &v == &t.v4(); }

inline Vec2d centroid(const Vertex& a, const Vertex& b, const Vertex& c)
{ return Vec2d{ (a.xy().x + b.xy().x + c.xy().x) / 3.0, (a.xy().y + b.xy().y + c.xy().y) / 3.0 }; }

inline Vec2d centroid(const Vertex& a, const Vertex& b, const Vertex& c, const Vertex& d)
{ return Vec2d{ (a.xy().x + b.xy().x + c.xy().x + d.xy().x) / 4.0, (a.xy().y + b.xy().y + c.xy().y + d.xy().y) / 4.0 }; }

inline double area(const Vertex& a, const Vertex& b, const Vertex& c) { return twice_area(a, b, c) / 2.0; }

inline double area(const Vertex& a, const Vertex& b, const Vertex& c, const Vertex& d) { return (twice_area(a, b, c) + twice_area(a, c, d)) / 2.0; }

inline double edge_length(const Vertex& a, const Vertex& b) { return len(a, b); }

inline Vec2d circumcenter(const Vertex& a, const Vertex& b, const Vertex& c)
{
  const double bx = b.xy().x - a.xy().x, by = b.xy().y - a.xy().y, cx = c.xy().x - a.xy().x, cy = c.xy().y - a.xy().y;
  const double d = 2.0 * (bx * cy - by * cx), b2 = bx * bx + by * by, c2 = cx * cx + cy * cy;
  return Vec2d{ a.xy().x + (cy * b2 - by * c2) / d, a.xy().y + (bx * c2 - cx * b2) / d };
}

inline Vec3d angles(const Vertex& a, const Vertex& b, const Vertex& c, const Vec3d& l)
{ return Vec3d{ acos(angle_cos(a, b, c) / (l[0] * l[2])), acos(angle_cos(b, a, c) / (l[0] * l[1])), acos(angle_cos(c, a, b) / (l[1] * l[2])) }; }

inline Vec4d angles(const Vertex& a, const Vertex& b, const Vertex& c, const Vertex& d, const Vec4d& l)
{ return Vec4d{ acos(angle_cos(a, b, d) / (l[0] * l[3])), acos(angle_cos(b, a, c) / (l[0] * l[1])), acos(angle_cos(c, b, d) / (l[1] * l[2])), acos(angle_cos(d, c, a) / (l[2] * l[3])) }; }

inline double shape_factor(Vec3d& l, double area)
{ const double s = l[0] * l[0] + l[1] * l[1] + l[2] * l[2]; return s > 0.0 ? 3.4641016151377544 * area / s : 0.0; }

inline double shape_factor(Vec4d& l, double area)
{ const double s = l[0] * l[0] + l[1] * l[1] + l[2] * l[2] + l[3] * l[3]; return s > 0.0 ? 3.4641016151377544 * area / s : 0.0; }

inline double quality(const Vec3d& l, const double s, const double h) { return s * ratio(l[0], h) * ratio(l[1], h) * ratio(l[2], h); }

inline double quality(const Vec4d& l, const double s, const double h) { return s * ratio(l[0], h) * ratio(l[1], h) * ratio(l[2], h) * ratio(l[3], h); }

// an element is valid only with positive area and positive side lengths
inline bool validity(const double area, const Vec3d& l) { return !(area <= 0.0 || l[0] <= 0.0 || l[1] <= 0.0 || l[2] <= 0.0); }

inline bool validity(const double area, const Vec4d& l) { return !(area <= 0.0 || l[0] <= 0.0 || l[1] <= 0.0 || l[2] <= 0.0 || l[3] <= 0.0); }

// overlap tests: every candidate in range is looked at, none but the element itself (or its corners) is exempt
inline bool hits(const Triangle& t, const Vertex& v)
{ return !corner(v, t) && in_on_triangle(v.xy(), t.v1().xy(), t.v2().xy(), t.v3().xy()); }

inline bool hits(const Quad& t, const Vertex& v)
{ return !corner(v, t) && in_on_quad(v.xy(), t.v1().xy(), t.v2().xy(), t.v3().xy(), t.v4().xy()); }

inline bool hits(const Triangle& t, const Domain& d)
{ bool r = false; for (auto e : d.get_boundary_edges(t.xy(), t.max_edge_length())) if (line_tri_crossing(e->v1().xy(), e->v2().xy(), t.v1().xy(), t.v2().xy(), t.v3().xy())) r = true; return r; }

inline bool hits(const Quad& t, const Domain& d)
{ return !d.is_inside(t.v1()) || !d.is_inside(t.v2()) || !d.is_inside(t.v3()) || !d.is_inside(t.v4()); }

inline bool hits(const Triangle& t, const Container<Triangle>& c, const double range)
{
  bool r = false;
  for (auto o : c.get_items(t.xy(), range))
    if (o != &t && o->is_active())
      if (tri_tri_intersection(o->v1().xy(), o->v2().xy(), o->v3().xy(), t.v1().xy(), t.v2().xy(), t.v3().xy())
          || in_triangle(o->xy(), t.v1().xy(), t.v2().xy(), t.v3().xy()) || in_triangle(t.xy(), o->v1().xy(), o->v2().xy(), o->v3().xy())) r = true;
  return r;
}

inline bool hits(const Triangle& t, const Container<Quad>& c, const double range)
{
  bool r = false;
  for (auto o : c.get_items(t.xy(), range))
    if (o->is_active())
      if (tri_quad_intersection(t.v1().xy(), t.v2().xy(), t.v3().xy(), o->v1().xy(), o->v2().xy(), o->v3().xy(), o->v4().xy())
          || in_triangle(o->xy(), t.v1().xy(), t.v2().xy(), t.v3().xy()) || in_quad(t.xy(), o->v1().xy(), o->v2().xy(), o->v3().xy(), o->v4().xy())) r = true;
  return r;
}

inline bool hits(const Quad& t, const Container<Triangle>& c, const double range)
{
  bool r = false;
  for (auto o : c.get_items(t.xy(), range))
    if (o->is_active())
      if (tri_quad_intersection(o->v1().xy(), o->v2().xy(), o->v3().xy(), t.v1().xy(), t.v2().xy(), t.v3().xy(), t.v4().xy())
          || in_triangle(t.xy(), o->v1().xy(), o->v2().xy(), o->v3().xy()) || in_quad(o->xy(), t.v1().xy(), t.v2().xy(), t.v3().xy(), t.v4().xy())) r = true;
  return r;
}

inline bool hits(const Quad& t, const Container<Quad>& c, const double range)
{
  bool r = false;
  for (auto o : c.get_items(t.xy(), range))
    if (o != &t && o->is_active())
      if (quad_quad_intersection(t.v1().xy(), t.v2().xy(), t.v3().xy(), t.v4().xy(), o->v1().xy(), o->v2().xy(), o->v3().xy(), o->v4().xy())
          || in_quad(o->xy(), t.v1().xy(), t.v2().xy(), t.v3().xy(), t.v4().xy()) || in_quad(t.xy(), o->v1().xy(), o->v2().xy(), o->v3().xy(), o->v4().xy())) r = true;
  return r;
}

inline bool hits(const Triangle& t, const Front& f, const double range)
{ bool r = false; for (auto e : f.edges().get_items(t.xy(), range)) if (line_tri_intersection(e->v1().xy(), e->v2().xy(), t.v1().xy(), t.v2().xy(), t.v3().xy())) r = true; return r; }

inline bool hits(const Quad& t, const Front& f, const double range)
{ bool r = false; for (auto e : f.edges().get_items(t.xy(), range)) if (line_quad_intersection(e->v1().xy(), e->v2().xy(), t.v1().xy(), t.v2().xy(), t.v3().xy(), t.v4().xy())) r = true; return r; }

inline bool hits(const Triangle& t, const Container<Vertex>& c, const double range)
{ bool r = false; for (auto v : c.get_items(t.xy(), range)) if (!corner(*v, t) && in_on_triangle(v->xy(), t.v1().xy(), t.v2().xy(), t.v3().xy())) r = true; return r; }

inline bool hits(const Quad& t, const Container<Vertex>& c, const double range)
{ bool r = false; for (auto v : c.get_items(t.xy(), range)) if (!corner(*v, t) && in_on_quad(v->xy(), t.v1().xy(), t.v2().xy(), t.v3().xy(), t.v4().xy())) r = true; return r; }

inline bool too_close(const Quad& t, const Front& f, const double range, const double m)
{
  auto near = [&](const Vertex& v) { return distance_point_edge_sqr(v.xy(), t.v1().xy(), t.v2().xy()) < m || distance_point_edge_sqr(v.xy(), t.v2().xy(), t.v3().xy()) < m
                                         || distance_point_edge_sqr(v.xy(), t.v3().xy(), t.v4().xy()) < m || distance_point_edge_sqr(v.xy(), t.v4().xy(), t.v1().xy()) < m; };
  bool r = false;
  for (auto e : f.edges().get_items(t.xy(), range)) if (!corner(e->v1(), t) && !corner(e->v2(), t)) if (near(e->v1()) || near(e->v2())) r = true;
  return r;
}

inline bool vertex_hits(const Vertex& v, const Container<Triangle>& c, const double range)
{ bool r = false; for (auto f : c.get_items(v.xy(), range)) if (f->intersects_vertex(v)) r = true; return r; }

inline bool vertex_hits(const Vertex& v, const Container<Quad>& c, const double range)
{ bool r = false; for (auto f : c.get_items(v.xy(), range)) if (f->intersects_vertex(v)) r = true; return r; }

inline bool vertex_near_edges(const Vertex& v, const Mesh& m, const double range, const double limit)
{
  bool r = false;
  for (auto e : m.get_intr_edges(v.xy(), range)) if (distance_point_edge_sqr(v.xy(), e->v1().xy(), e->v2().xy()) <= limit * limit) r = true;
  for (auto e : m.get_bdry_edges(v.xy(), range)) if (distance_point_edge_sqr(v.xy(), e->v1().xy(), e->v2().xy()) <= limit * limit) r = true;
  return r;
}

// the element's own tests are these, on its own data
inline double el_quality(const Triangle& t, const double h) { return TriangleGeometry::calc_quality(t.edge_lengths_, t.shape_factor_, h); }

inline double el_quality(const Quad& t, const double h) { return QuadGeometry::calc_quality(t.edge_lengths_, t.shape_factor_, h); }

inline bool el_valid(const Triangle& t) { return TriangleGeometry::check_validity(t.area_, t.edge_lengths_); }

inline bool el_valid(const Quad& t) { return QuadGeometry::check_validity(t.area_, t.edge_lengths_); }

inline bool el_vertex(const Triangle& t, const Vertex& v) { return TriangleGeometry::check_intersection(t, v); }

inline bool el_vertex(const Quad& t, const Vertex& v) { return QuadGeometry::check_intersection(t, v); }

inline bool el_vertex(const Triangle& t, const Container<Vertex>& v, const double r) { return TriangleGeometry::check_intersection(t, v, r); }

inline bool el_vertex(const Quad& t, const Container<Vertex>& v, const double r) { return QuadGeometry::check_intersection(t, v, r); }

inline bool el_domain(const Triangle& t, const Domain& d) { return TriangleGeometry::check_intersection(t, d); }

inline bool el_domain(const Quad& t, const Domain& d) { return QuadGeometry::check_intersection(t, d); }

inline bool el_triangle(const Triangle& t, const Container<Triangle>& d, const double r) { return TriangleGeometry::check_intersection(t, d, r); }

inline bool el_triangle(const Quad& t, const Container<Triangle>& d, const double r) { return QuadGeometry::check_intersection(t, d, r); }

inline bool el_quad(const Triangle& t, const Container<Quad>& d, const double r) { return TriangleGeometry::check_intersection(t, d, r); }

inline bool el_quad(const Quad& t, const Container<Quad>& d, const double r) { return QuadGeometry::check_intersection(t, d, r); }

inline bool el_front(const Triangle& t, const Front& d, const double r) { return TriangleGeometry::check_intersection(t, d, r); }

inline bool el_front(const Quad& t, const Front& d, const double r) { return QuadGeometry::check_intersection(t, d, r); }


inline double tri_radius(const Vertex& a, const Vec2d& m) { return (a.xy() - m).norm(); }

inline Vec2d quad_center(const Vertex& a, const Vertex& b, const Vertex& c, const Vertex& d)
{ return { (a.xy().x + b.xy().x + c.xy().x + d.xy().x) / 4, (a.xy().y + b.xy().y + c.xy().y + d.xy().y) / 4 }; }

inline double quad_radius(const Vertex& a, const Vertex& b, const Vertex& c, const Vertex& d, const Vec2d& m)
{ return std::max(std::max((m - a.xy()).norm(), (m - b.xy()).norm()), std::max((m - c.xy()).norm(), (m - d.xy()).norm())); }

}}
