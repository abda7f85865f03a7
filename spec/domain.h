// Specification programs: domains, their boundaries, shapes and size function.
namespace vp_spec { namespace domain {
using namespace TQMesh; using namespace CppUtils;
inline double least(double a, double b) { return a < b ? a : b; }
inline double most(double a, double b) { return a > b ? a : b; }
inline Vertices& verts(Boundary& b) { return *b.domain_vertices_; }

// a point belongs to the domain if it is inside of every exterior and outside of every interior boundary
inline bool is_inside(const Domain& d, const Vertex& v)
{
  for (const auto& b : d.boundaries_)
    if (b->is_inside(v) != (b->btype_ == BdryType::EXTERIOR)) return false;
  return true;
}

inline double area(const Domain& d) { double a = 0; for (const auto& b : d.boundaries_) a += b->area(); return a; }

inline std::vector<Edge*> get_boundary_edges(const Domain& d, const Vec2d& p, double r)
{
  std::vector<Edge*> all;
  for (const auto& b : d.boundaries_) { auto some = b->get_edges(p, r); all.insert(all.end(), some.begin(), some.end()); }
  return all;
}

inline std::pair<Vec2d, Vec2d> extent(const Domain& d)
{
  if (d.verts_.size() == 0) return { Vec2d{0.0, 0.0}, Vec2d{0.0, 0.0} };
  const Vertex& f = d.verts_.front();
  double x0 = f.x(), x1 = f.x(), y0 = f.y(), y1 = f.y();
  for (const auto& v : d.verts_)
  { x0 = least(x0, v->x()); x1 = most(x1, v->x()); y0 = least(y0, v->y()); y1 = most(y1, v->y()); }
  return { Vec2d{x0, x1}, Vec2d{y0, y1} };
}

inline Vertex& add_vertex(Domain& d, double& x, double& y, double& s, double& r)
{ Vertex& v = d.verts_.push_back(x, y, s, r); v.add_property(VertexProperty::on_boundary); return v; }

inline Vertex& add_fixed_vertex(Domain& d, double& x, double& y, double& s, double& r)
{ Vertex& v = d.verts_.push_back(x, y, s, r); v.add_property(VertexProperty::is_fixed); d.fixed_verts_.push_back(&v); return v; }

inline Edge& add_fixed_edge(Domain& d, Vertex& a, Vertex& b)
{ Edge& e = d.fixed_edges_.add_edge(a, b, INTERIOR_EDGE_COLOR); e.add_property(EdgeProperty::is_fixed); return e; }

inline size_t count_edge_overlaps(Domain& d, const Domain& o)
{
  size_t n = 0;
  for (const auto& b : d.boundaries_)
    for (const auto& e : b->edges())
      for (Edge* f : o.get_boundary_edges(e->xy(), d.edge_overlap_range_ * e->length()))
        if (segment_overlap(e->v1().xy(), e->v2().xy(), f->v1().xy(), f->v2().xy())) n += 1;
  return n;
}

inline bool law_overlap_range(const UserSizeFunction& f) { Domain d(f); return d.edge_overlap_range_ == 1.5; }

// the local size never exceeds the user's size function; boundary and fixed vertices only reduce it, smoothly
inline double evaluate(const SizeFunction& s, const Vec2d& p, const Domain& d)
{
  const double f = s.f_(p);
  if (f <= 0.0) TERMINATE("");
  double h = f;
  for (const auto& b : d.boundaries_)
    for (const auto& e : b->edges())
    {
      const Vertex &a = e->v1(), &c = e->v2();
      const double l = e->length();
      const double r = most(f / l, l / f);
      const double ra = r * (a.size_range() <= 0.0 ? l : a.size_range()), rc = r * (c.size_range() <= 0.0 ? l : c.size_range());
      const double za = exp(-(p - a.xy()).norm_sqr() / ra / ra), zc = exp(-(p - c.xy()).norm_sqr() / rc / rc);
      const double ha = least(a.mesh_size() <= 0.0 ? f : a.mesh_size(), l), hc = least(c.mesh_size() <= 0.0 ? f : c.mesh_size(), l);
      h = least(h, za * ha + (1.0 - za) * f);
      h = least(h, zc * hc + (1.0 - zc) * f);
    }
  for (Vertex* v : d.fixed_verts_)
    if (v->mesh_size() > 0.0)
    {
      const double r = v->size_range() <= 0.0 ? f : v->size_range();
      const double z = exp(-(p - v->xy()).norm_sqr() / r / r);
      h = least(h, z * v->mesh_size() + (1.0 - z) * f);
    }
  return h;
}

inline double size_function(const Domain& d, const Vec2d& p) { return d.size_fun_.evaluate(p, d); }

// boundaries: exterior ones run counter-clockwise, interior ones clockwise
inline bool law_ext(Vertices& vs) { Boundary b(vs, BdryType::EXTERIOR); return b.orient() == Orientation::CCW && b.is_exterior() && !b.is_interior(); }

inline bool law_int(Vertices& vs) { Boundary b(vs, BdryType::INTERIOR); return b.orient() == Orientation::CW && !b.is_exterior() && b.is_interior(); }

inline Edge& insert_edge(Boundary& b, EdgeList::const_iterator pos, Vertex& v, Vertex& w, int color)
{ Edge& e = static_cast<EdgeList&>(b).insert_edge(pos, v, w, color); e.add_property(EdgeProperty::on_boundary); return e; }

inline Edge& add_edge(Boundary& b, Vertex& v, Vertex& w, int color) { return b.insert_edge(b.edges_.end(), v, w, color); }

// the polygon is entered in the direction its kind requires; segment i (from corner i to corner i+1) keeps colour i
inline void shape(Boundary& b, const std::vector<Vec2d>& pts, const std::vector<Vec2d>& props, const std::vector<int>& colors)
{
  if (b.edges_.size() > 0) return;
  const bool ccw = polygon_area(pts) > 0.0;
  const int n = (int)pts.size();
  std::vector<Vertex*> vs;
  for (int i = 0; i < n; ++i)
  {
    Vertex* near = verts(b).get_nearest(pts[i]);
    if (near && EQ0((near->xy() - pts[i]).norm_sqr())) vs.push_back(near);
    else vs.push_back(&verts(b).push_back(pts[i], props[i].x, props[i].y));
  }
  const bool forward = b.btype_ == BdryType::EXTERIOR ? ccw : !ccw;
  if (forward) { for (int i = 0; i < n; ++i) b.add_edge(*vs[i], *vs[MOD(i + 1, n)], colors[i]); }
  else { for (int i = n - 1; i >= 0; --i) b.add_edge(*vs[MOD(i + 1, n)], *vs[i], colors[i]); }
}

inline void shape_coords3(Boundary& b, const std::vector<Vec2d>& pts, const std::vector<int>& colors, const std::vector<Vec2d>& props) { b.create_boundary_shape(pts, props, colors); }

inline void shape_coords2(Boundary& b, const std::vector<Vec2d>& pts, const std::vector<int>& colors)
{ std::vector<Vec2d> props(pts.size(), Vec2d{-1.0, -1.0}); b.create_boundary_shape(pts, props, colors); }

inline void shape_csv(Boundary& b, const std::string& f) { CSVBoundaryReader r(f); b.create_boundary_shape(r.vertex_coords_, r.vertex_props_, r.edge_colors_); }

inline void shape_square(Boundary& b, int color, const Vec2d& c, double w, double s, double r) { b.set_shape_rectangle(color, c, w, w, s, r); }

// equilateral triangle with side a: circumradius a / sqrt(3)
inline void shape_triangle(Boundary& b, int color, const Vec2d& c, double a, double s, double r) { b.set_shape_circle(color, c, a / sqrt(3), 3, s, r); }

inline void shape_rectangle(Boundary& b, int color, const Vec2d& c, double w, double h, double s, double r)
{
  std::vector<Vec2d> pts { Vec2d{c.x - w/2, c.y - h/2}, Vec2d{c.x + w/2, c.y - h/2}, Vec2d{c.x + w/2, c.y + h/2}, Vec2d{c.x - w/2, c.y + h/2} };
  std::vector<Vec2d> props { Vec2d{s, r}, Vec2d{s, r}, Vec2d{s, r}, Vec2d{s, r} };
  std::vector<int> cs(4, color);
  b.create_boundary_shape(pts, props, cs);
}

inline void shape_circle(Boundary& b, int color, const Vec2d& c, double rad, size_t n, double s, double r)
{
  if (n < 3) return;
  std::vector<Vec2d> pts, props;
  std::vector<int> cs;
  for (size_t i = 0; i < n; ++i)
  {
    const double a = 2.0 * M_PI * i / n;
    pts.push_back(Vec2d{c.x + rad * cos(a), c.y + rad * sin(a)});
    props.push_back(Vec2d{s, r});
    cs.push_back(color);
  }
  b.create_boundary_shape(pts, props, cs);
}

}}
