// Specification programs and laws: vertices, edges, triangles and quads.
namespace vp_spec { namespace entities {
using namespace TQMesh; using namespace CppUtils;
inline bool null(const Facet* f) { return f == &NullFacet::get_instance(); }

// ---- construction: what was given is what is read back
inline bool law_vertex(double x, double y, double s, double r)
{ Vertex v(x, y, s, r); const Vertex& c = v; return c.xy().x == x && c.xy().y == y && c.x() == x && c.y() == y && c.mesh_size() == s && c.size_range() == r && c.has_no_property() && !c.in_container() && c.edges().size() == 0 && c.facets().size() == 0; }

inline bool law_vertex_vec(const Vec2d& p, double s, double r)
{ Vertex v(p, s, r); const Vertex& c = v; return c.xy().x == p.x && c.xy().y == p.y && c.mesh_size() == s && c.size_range() == r && c.has_no_property() && c.edges().size() == 0 && c.facets().size() == 0; }

inline bool law_vertex_set(Vertex& v, double s, double r, unsigned int i)
{ v.mesh_size(s); v.size_range(r); v.index(i); return v.mesh_size() == s && v.size_range() == r && v.index() == i; }

inline bool law_edge(Vertex& a, Vertex& b, EdgeList& l, int color)
{ Edge e(a, b, l, color); const Edge& c = e;
  return &e.v1() == &a && &e.v2() == &b && &c.v1() == &a && &c.v2() == &b && c.color() == color && &c.edgelist() == &l && null(c.facet_l()) && null(c.facet_r())
      && c.sub_vertex() == nullptr && c.twin_edge() == nullptr && c.has_no_property() && c.xy().x == 0.5 * (a.xy().x + b.xy().x) && c.xy().y == 0.5 * (a.xy().y + b.xy().y); }

inline bool law_edge_set(Edge& e, Facet* f, Facet* g, Vertex* s, Edge* t)
{ e.facet_l(f); e.facet_r(g); e.sub_vertex(s); e.twin_edge(t); const Edge& c = e; return c.facet_l() == f && c.facet_r() == g && e.facet_l() == f && e.facet_r() == g && c.sub_vertex() == s && c.twin_edge() == t; }

inline bool law_triangle(Vertex& a, Vertex& b, Vertex& d)
{ Triangle t(a, b, d); const Triangle& c = t;
  return &t.v1() == &a && &t.v2() == &b && &t.v3() == &d && &c.v1() == &a && &c.v2() == &b && &c.v3() == &d
      && &t.vertex(0) == &a && &t.vertex(1) == &b && &t.vertex(2) == &d && &c.vertex(0) == &a && &c.vertex(1) == &b && &c.vertex(2) == &d
      && c.n_vertices() == 3 && c.color() == 0 && c.index() == -1 && !c.is_active() && c.mesh() == nullptr; }

inline bool law_triangle_nbrs(Vertex& a, Vertex& b, Vertex& d)
{ Triangle t(a, b, d); const Triangle& c = t; return null(c.neighbor(0)) && null(c.neighbor(1)) && null(c.neighbor(2)) && null(c.nbr1()) && null(c.nbr2()) && null(c.nbr3()); }

inline bool law_triangle_set(Triangle& t, Facet* f, Facet* g, Facet* h, int color, int index, bool act, Mesh* m)
{ t.neighbor(0, f); t.neighbor(1, g); t.neighbor(2, h); t.color(color); t.index(index); t.is_active(act); t.mesh(m); const Triangle& c = t;
  return c.neighbor(0) == f && c.neighbor(1) == g && c.neighbor(2) == h && c.nbr1() == f && c.nbr2() == g && c.nbr3() == h && t.neighbor(0) == f && t.neighbor(1) == g && t.neighbor(2) == h && t.nbr1() == f && t.nbr2() == g && t.nbr3() == h
      && c.color() == color && c.index() == index && c.is_active() == act && c.mesh() == m; }

inline bool law_triangle_nbr_set(Triangle& t, Facet* f, Facet* g, Facet* h)
{ t.nbr1(f); t.nbr2(g); t.nbr3(h); return t.neighbor(0) == f && t.neighbor(1) == g && t.neighbor(2) == h; }

inline bool law_quad(Vertex& a, Vertex& b, Vertex& d, Vertex& e)
{ Quad q(a, b, d, e); const Quad& c = q;
  return &q.v1() == &a && &q.v2() == &b && &q.v3() == &d && &q.v4() == &e && &c.v1() == &a && &c.v2() == &b && &c.v3() == &d && &c.v4() == &e
      && &q.vertex(0) == &a && &q.vertex(1) == &b && &q.vertex(2) == &d && &q.vertex(3) == &e && &c.vertex(0) == &a && &c.vertex(1) == &b && &c.vertex(2) == &d && &c.vertex(3) == &e
      && c.n_vertices() == 4 && c.color() == 0 && c.index() == -1 && !c.is_active() && c.mesh() == nullptr; }

inline bool law_quad_nbrs(Vertex& a, Vertex& b, Vertex& d, Vertex& e)
{ Quad q(a, b, d, e); const Quad& c = q; return null(c.neighbor(0)) && null(c.neighbor(1)) && null(c.neighbor(2)) && null(c.neighbor(3)) && null(c.nbr1()) && null(c.nbr2()) && null(c.nbr3()) && null(c.nbr4()); }

inline bool law_quad_set(Quad& t, Facet* f, Facet* g, Facet* h, Facet* k, int color, int index, bool act, Mesh* m)
{ t.neighbor(0, f); t.neighbor(1, g); t.neighbor(2, h); t.neighbor(3, k); t.color(color); t.index(index); t.is_active(act); t.mesh(m); const Quad& c = t;
  return c.neighbor(0) == f && c.neighbor(1) == g && c.neighbor(2) == h && c.neighbor(3) == k && c.nbr1() == f && c.nbr2() == g && c.nbr3() == h && c.nbr4() == k && t.nbr1() == f && t.nbr2() == g && t.nbr3() == h && t.nbr4() == k
      && t.neighbor(0) == f && t.neighbor(1) == g && t.neighbor(2) == h && t.neighbor(3) == k && c.color() == color && c.index() == index && c.is_active() == act && c.mesh() == m; }

inline bool law_quad_nbr_set(Quad& t, Facet* f, Facet* g, Facet* h, Facet* k)
{ t.nbr1(f); t.nbr2(g); t.nbr3(h); t.nbr4(k); return t.neighbor(0) == f && t.neighbor(1) == g && t.neighbor(2) == h && t.neighbor(3) == k; }

inline bool law_null_facet(NullFacet& n)
{ const NullFacet& c = n; return c.index() == -1 && c.color() == -1 && c.n_vertices() == 0 && c.area() == 0 && c.min_angle() == 0 && c.max_angle() == 0 && c.min_edge_length() == 0 && c.max_edge_length() == 0 && c.mesh() == nullptr; }

inline bool law_null_facet_test(Triangle& t)
{ Facet* n = &NullFacet::get_instance(); return NullFacet::is_null(n) && !NullFacet::is_not_null(n) && NullFacet::is_null(&t) == (n == &t) && NullFacet::is_not_null(&t) == (n != &t); }

// ---- property flags: one bit each, set and cleared independently
inline bool law_edge_flags(Vertex& a, Vertex& b, EdgeList& l)
{ Edge e(a, b, l, 0); using E = EdgeProperty;
  bool r = e.is_interior() && !e.on_boundary() && !e.is_ghost() && !e.is_fixed();
  e.add_property(E::on_boundary); r = r && e.on_boundary() && !e.is_interior() && !e.is_fixed() && !e.is_ghost() && !e.has_no_property();
  e.add_property(E::is_fixed); r = r && e.on_boundary() && e.is_fixed() && !e.is_ghost();
  e.add_property(E::is_ghost); r = r && e.on_boundary() && e.is_fixed() && e.is_ghost();
  e.remove_property(E::is_fixed); r = r && e.on_boundary() && !e.is_fixed() && e.is_ghost();
  e.remove_property(E::on_boundary); r = r && !e.on_boundary() && !e.is_fixed() && e.is_ghost();
  e.set_property(E::is_fixed); r = r && !e.on_boundary() && e.is_fixed() && !e.is_ghost();
  return r; }

inline bool law_vertex_flags()
{ Vertex v(0.0, 0.0); using W = VertexProperty;
  bool r = !v.on_front() && !v.on_boundary() && !v.is_fixed() && !v.in_quad_layer();
  v.add_property(W::on_front); r = r && v.on_front() && !v.on_boundary() && !v.is_fixed() && !v.in_quad_layer();
  v.add_property(W::on_boundary); r = r && v.on_front() && v.on_boundary() && !v.is_fixed() && !v.in_quad_layer();
  v.add_property(W::is_fixed); v.add_property(W::in_quad_layer); r = r && v.on_front() && v.on_boundary() && v.is_fixed() && v.in_quad_layer();
  v.remove_property(W::on_front); r = r && !v.on_front() && v.on_boundary() && v.is_fixed() && v.in_quad_layer();
  v.remove_property(W::is_fixed); r = r && !v.on_front() && v.on_boundary() && !v.is_fixed() && v.in_quad_layer();
  v.set_property(W::is_fixed); r = r && !v.on_front() && !v.on_boundary() && v.is_fixed() && !v.in_quad_layer();
  return r; }

// ---- local numbering: edge i of a triangle is opposite vertex i; edge i of a quad follows vertex i
inline int tri_vertex_index(const Triangle& t, const Vertex& v)
{ return &v == &t.v1() ? 0 : &v == &t.v2() ? 1 : &v == &t.v3() ? 2 : -1; }

inline bool joins(const Vertex& a, const Vertex& b, const Vertex& p, const Vertex& q) { return (&a == &p && &b == &q) || (&a == &q && &b == &p); }

inline int tri_edge_index(const Triangle& t, const Vertex& a, const Vertex& b)
{ return joins(a, b, t.v1(), t.v2()) ? 2 : joins(a, b, t.v2(), t.v3()) ? 0 : joins(a, b, t.v3(), t.v1()) ? 1 : -1; }

inline int quad_vertex_index(const Quad& t, const Vertex& v)
{ return &v == &t.v1() ? 0 : &v == &t.v2() ? 1 : &v == &t.v3() ? 2 : &v == &t.v4() ? 3 : -1; }

inline int quad_edge_index(const Quad& t, const Vertex& a, const Vertex& b)
{ return joins(a, b, t.v1(), t.v2()) ? 3 : joins(a, b, t.v2(), t.v3()) ? 0 : joins(a, b, t.v3(), t.v4()) ? 1 : joins(a, b, t.v4(), t.v1()) ? 2 : -1; }

// ---- back links: an edge or facet is registered at exactly its vertices while it lives in a mesh
inline void edge_destructor(Edge& e)
{
  if (e.v1_ != nullptr) e.v1_->edges().remove(&e);
  if (e.v2_ != nullptr) e.v2_->edges().remove(&e);
  e.v1_ = nullptr; e.v2_ = nullptr;
}

inline void tri_destructor(Triangle& t)
{
  for (int i = 0; i < 3; ++i) if (t.vertices_[i]) t.vertices_[i]->facets_.remove(&t);
  for (int i = 0; i < 3; ++i) t.vertices_[i] = nullptr;
}

inline void quad_destructor(Quad& t)
{
  for (int i = 0; i < 4; ++i) if (t.vertices_[i]) t.vertices_[i]->facets_.remove(&t);
  for (int i = 0; i < 4; ++i) t.vertices_[i] = nullptr;
}

inline void add_edge(Vertex& v, Edge& e) { v.edges_.push_back(&e); }

inline void remove_edge(Vertex& v, Edge& e) { v.edges_.remove(&e); }

inline void add_facet(Vertex& v, Facet& f) { v.facets_.push_back(&f); }

inline void remove_facet(Vertex& v, Facet& f) { v.facets_.remove(&f); }

inline bool is_adjacent(Vertex& v, const Edge& e)
{ bool r = false; for (auto x : v.edges()) if (x == &e) r = true; return r; }

inline bool is_adjacent(Vertex& v, const Facet& e)
{ bool r = false; for (auto x : v.facets()) if (x == &e) r = true; return r; }

inline Edge* next_edge(const Edge& e)
{
  for (auto x : e.v2_->edges())
    if (x != &e && &x->edgelist() == e.edgelist_ && &x->v1() == e.v2_) return x;
  return nullptr;
}

inline Edge* prev_edge(const Edge& e)
{
  for (auto x : e.v1_->edges())
    if (x != &e && &x->edgelist() == e.edgelist_ && &x->v2() == e.v1_) return x;
  return nullptr;
}

// ---- metrics always follow the vertices
inline void edge_metrics(Edge& e, bool centroid)
{
  const Vec2d a = e.v1_->xy(), b = e.v2_->xy();
  if (centroid) e.container_->update(e, Vec2d{ 0.5 * (a.x + b.x), 0.5 * (a.y + b.y) });
  const double dx = b.x - a.x, dy = b.y - a.y, l = sqrt(dx * dx + dy * dy);
  e.length_ = l;
  e.tang_ = Vec2d{ dx / l, dy / l };
  e.norm_ = Vec2d{ -(dy / l), dx / l };
}

inline void tri_metrics(Triangle& t, bool centroid)
{
  using G = TriangleGeometry;
  Vertex &a = *t.vertices_[0], &b = *t.vertices_[1], &c = *t.vertices_[2];
  if (centroid) t.container_->update(t, G::calc_centroid(a, b, c));
  const double l0 = G::calc_edge_length(a, b), l1 = G::calc_edge_length(b, c), l2 = G::calc_edge_length(c, a);
  t.edge_lengths_ = Vec3d{ l0, l1, l2 };
  t.min_edge_length_ = t.edge_lengths_.min();
  t.max_edge_length_ = t.edge_lengths_.max();
  t.area_ = G::calc_area(a, b, c);
  t.circumcenter_ = G::calc_circumcenter(a, b, c);
  t.circumradius_ = G::calc_circumradius(a, t.circumcenter_);
  t.angles_ = G::calc_angles(a, b, c, t.edge_lengths_);
  t.min_angle_ = t.angles_.min();
  t.max_angle_ = t.angles_.max();
  t.shape_factor_ = G::calc_shape_factor(t.edge_lengths_, t.area_);
}

inline void quad_metrics(Quad& t, bool centroid)
{
  using G = QuadGeometry;
  Vertex &a = *t.vertices_[0], &b = *t.vertices_[1], &c = *t.vertices_[2], &d = *t.vertices_[3];
  if (centroid) t.container_->update(t, G::calc_centroid(a, b, c, d));
  const double l0 = G::calc_edge_length(a, b), l1 = G::calc_edge_length(b, c), l2 = G::calc_edge_length(c, d), l3 = G::calc_edge_length(d, a);
  t.edge_lengths_ = Vec4d{ l0, l1, l2, l3 };
  t.min_edge_length_ = t.edge_lengths_.min();
  t.max_edge_length_ = t.edge_lengths_.max();
  t.area_ = G::calc_area(a, b, c, d);
  t.circumcenter_ = G::calc_circumcenter(a, b, c, d);
  t.circumradius_ = G::calc_circumradius(a, b, c, d, t.circumcenter_);
  t.angles_ = G::calc_angles(a, b, c, d, t.edge_lengths_);
  t.min_angle_ = t.angles_.min();
  t.max_angle_ = t.angles_.max();
  t.shape_factor_ = G::calc_shape_factor(t.edge_lengths_, t.area_);
}

inline void adjust_xy(Vertex& v, const Vec2d& p) { v.container_->update(v, p); }

// ---- constructors register the new entity and compute its metrics from its vertices
inline bool law_edge_registers(Vertex& a, Vertex& b, EdgeList& l, int color)
{ const auto n = a.edges().size(), m = b.edges().size(); Edge e(a, b, l, color);
  return a.edges().size() == n + 1 && a.edges().back() == &e && b.edges().size() == m + 1 && b.edges().back() == &e; }

inline bool law_triangle_registers(Vertex& a, Vertex& b, Vertex& c)
{ const auto n = a.facets().size(), m = b.facets().size(), k = c.facets().size(); Triangle e(a, b, c);
  return a.facets().size() == n + 1 && a.facets().back() == &e && b.facets().size() == m + 1 && b.facets().back() == &e && c.facets().size() == k + 1 && c.facets().back() == &e; }

inline bool law_quad_registers(Vertex& a, Vertex& b, Vertex& c, Vertex& d)
{ const auto n = a.facets().size(), m = b.facets().size(), k = c.facets().size(), l = d.facets().size(); Quad e(a, b, c, d);
  return a.facets().size() == n + 1 && a.facets().back() == &e && b.facets().size() == m + 1 && b.facets().back() == &e && c.facets().size() == k + 1 && c.facets().back() == &e && d.facets().size() == l + 1 && d.facets().back() == &e; }

// ---- identity comparison and defaults
inline bool law_vertex_same(Vertex& a, Vertex& b) { return (a == b) == (&a == &b) && (a != b) == (&a != &b); }

inline bool law_edge_same(Edge& a, Edge& b) { return (a == b) == (&a == &b) && (a != b) == (&a != &b); }

inline bool law_triangle_same(Triangle& a, Triangle& b) { return (a == b) == (&a == &b) && (a != b) == (&a != &b); }

inline bool law_quad_same(Quad& a, Quad& b) { return (a == b) == (&a == &b) && (a != b) == (&a != &b); }

inline bool law_vertex_default(const Vec2d& p) { Vertex v(p); return v.mesh_size() == 0.0 && v.size_range() == 0.0 && v.index() == 0; }

inline bool law_vertex_default_xy(double x, double y) { Vertex v(x, y); return v.mesh_size() == 0.0 && v.size_range() == 0.0 && v.index() == 0; }

inline void use_edge_update(Edge& e) { e.update_metrics(); }
inline void means_edge_update(Edge& e) { e.update_metrics(true); }

inline void use_triangle_update(Triangle& e) { e.update_metrics(); }
inline void means_triangle_update(Triangle& e) { e.update_metrics(true); }

inline void use_quad_update(Quad& e) { e.update_metrics(); }
inline void means_quad_update(Quad& e) { e.update_metrics(true); }

inline const Edge* use_vertex_edge(const Vertex& v, size_t i) { return &v.edges(i); }
inline const Edge* means_vertex_edge(const Vertex& v, size_t i) { auto p = v.edges().begin(); std::advance(p, i); return *p; }

inline const Facet* use_vertex_facet(const Vertex& v, size_t i) { return &v.facets(i); }
inline const Facet* means_vertex_facet(const Vertex& v, size_t i) { auto p = v.facets().begin(); std::advance(p, i); return *p; }

// ---- a new entity has the metrics of its vertices
inline bool law_edge_new(Vertex& a, Vertex& b, EdgeList& l, int color)
{ Edge e(a, b, l, color); const double dx = b.xy().x - a.xy().x, dy = b.xy().y - a.xy().y, d = sqrt(dx * dx + dy * dy);
  return e.length() == d && e.tangent().x == dx / d && e.tangent().y == dy / d && e.normal().x == -dy / d && e.normal().y == dx / d; }

inline bool law_triangle_new(Vertex& a, Vertex& b, Vertex& c)
{ Triangle t(a, b, c); using G = TriangleGeometry; const Vec2d m = G::calc_centroid(a, b, c);
  return t.area() == G::calc_area(a, b, c) && t.xy().x == m.x && t.xy().y == m.y && t.edgelength(0) == G::calc_edge_length(a, b) && t.edgelength(1) == G::calc_edge_length(b, c) && t.edgelength(2) == G::calc_edge_length(c, a); }

inline bool law_triangle_new_angles(Vertex& a, Vertex& b, Vertex& c)
{ Triangle t(a, b, c); using G = TriangleGeometry; const Vec3d w = G::calc_angles(a, b, c, Vec3d{ G::calc_edge_length(a, b), G::calc_edge_length(b, c), G::calc_edge_length(c, a) });
  return t.angle(0) == w[0] && t.angle(1) == w[1] && t.angle(2) == w[2]; }

inline bool law_quad_new(Vertex& a, Vertex& b, Vertex& c, Vertex& d)
{ Quad t(a, b, c, d); using G = QuadGeometry; const Vec2d m = G::calc_centroid(a, b, c, d);
  return t.area() == G::calc_area(a, b, c, d) && t.xy().x == m.x && t.xy().y == m.y && t.edgelength(0) == G::calc_edge_length(a, b) && t.edgelength(1) == G::calc_edge_length(b, c) && t.edgelength(2) == G::calc_edge_length(c, d) && t.edgelength(3) == G::calc_edge_length(d, a); }

inline bool law_quad_new_angles(Vertex& a, Vertex& b, Vertex& c, Vertex& d)
{ Quad t(a, b, c, d); using G = QuadGeometry; const Vec4d w = G::calc_angles(a, b, c, d, Vec4d{ G::calc_edge_length(a, b), G::calc_edge_length(b, c), G::calc_edge_length(c, d), G::calc_edge_length(d, a) });
  return t.angle(0) == w[0] && t.angle(1) == w[1] && t.angle(2) == w[2] && t.angle(3) == w[3]; }

}}
