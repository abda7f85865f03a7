// Specification programs: the mesh as a store of vertices, edges and elements.
namespace vp_spec { namespace mesh {
using namespace TQMesh; using namespace CppUtils;
inline bool null(const Facet* f) { return f == &NullFacet::get_instance(); }

// what is created carries the requested colour (the mesh's own if none is given) and belongs to this mesh
inline Triangle& add_triangle(Mesh& m, Vertex& a, Vertex& b, Vertex& c, int color)
{ Triangle& t = m.tris_.push_back(a, b, c); t.color_ = color < 0 ? m.elem_color_ : color; t.mesh_ = &m; return t; }

inline Quad& add_quad(Mesh& m, Vertex& a, Vertex& b, Vertex& c, Vertex& d, int color)
{ Quad& t = m.quads_.push_back(a, b, c, d); t.color_ = color < 0 ? m.elem_color_ : color; t.mesh_ = &m; return t; }

inline Vertex& add_vertex(Mesh& m, const Vec2d& p) { return m.verts_.push_back(p); }

inline Edge& add_interior_edge(Mesh& m, Vertex& a, Vertex& b) { return m.intr_edges_.add_edge(a, b, INTERIOR_EDGE_COLOR); }

inline Edge& add_boundary_edge(Mesh& m, Vertex& a, Vertex& b, int color)
{ Edge& e = m.bdry_edges_.add_edge(a, b, color); e.add_property(EdgeProperty::on_boundary); return e; }

inline void remove_vertex(Mesh& m, Vertex& v) { m.verts_.remove(v); }

inline void remove_triangle(Mesh& m, Triangle& v) { m.tris_.remove(v); }

inline void remove_quad(Mesh& m, Quad& v) { m.quads_.remove(v); }

inline void remove_interior_edge(Mesh& m, Edge& e) { if (&e.edgelist() == &m.intr_edges_) m.intr_edges_.remove(e); }

inline void remove_boundary_edge(Mesh& m, Edge& e) { if (&e.edgelist() == &m.bdry_edges_) m.bdry_edges_.remove(e); }

inline void clear_waste(Mesh& m)
{ m.verts_.clear_waste(); m.tris_.clear_waste(); m.quads_.clear_waste(); m.intr_edges_.clear_waste(); m.bdry_edges_.clear_waste(); }

inline bool is_empty(const Mesh& m)
{ return m.verts_.size() == 0 && m.quads_.size() + m.tris_.size() == 0 && m.intr_edges_.size() + m.bdry_edges_.size() == 0; }

// look-ups
inline Edge* get_interior_edge(const Mesh& m, const Vertex& a, const Vertex& b, bool dir) { return m.intr_edges_.get_edge(a, b, dir); }

inline Edge* get_boundary_edge(const Mesh& m, const Vertex& a, const Vertex& b, bool dir) { return m.bdry_edges_.get_edge(a, b, dir); }

inline Edge* get_edge(const Mesh& m, const Vertex& a, const Vertex& b, bool dir)
{ Edge* e = m.intr_edges_.get_edge(a, b, dir); if (!e) e = m.bdry_edges_.get_edge(a, b, dir); return e; }

inline std::vector<Vertex*> get_vertices(const Mesh& m, const Vec2d& p, double r) { return m.verts_.get_items(p, r); }

inline std::vector<Triangle*> get_triangles(const Mesh& m, const Vec2d& p, double r) { return m.tris_.get_items(p, r); }

inline std::vector<Quad*> get_quads(const Mesh& m, const Vec2d& p, double r) { return m.quads_.get_items(p, r); }

inline std::vector<Edge*> get_intr_edges(const Mesh& m, const Vec2d& p, double r) { return m.intr_edges_.get_edges(p, r); }

inline std::vector<Edge*> get_bdry_edges(const Mesh& m, const Vec2d& p, double r) { return m.bdry_edges_.get_edges(p, r); }

inline std::vector<Edge*> valid_interior(const Mesh& m)
{ std::vector<Edge*> r; for (auto& e : m.intr_edges_) if (!null(e->facet_l()) && !null(e->facet_r())) r.push_back(e.get()); return r; }

inline std::vector<Edge*> valid_boundary(const Mesh& m)
{ std::vector<Edge*> r; for (auto& e : m.bdry_edges_) if (!null(e->facet_l())) r.push_back(e.get()); return r; }

inline std::vector<Edge*> interface_edges(const Mesh& m)
{ std::vector<Edge*> r; for (auto& e : m.bdry_edges_) if (e->twin_edge() != nullptr) r.push_back(e.get()); return r; }

inline std::vector<Edge*> front_edges(const Mesh& m)
{
  std::vector<Edge*> r;
  for (auto& e : m.intr_edges_) if (null(e->facet_l()) || null(e->facet_r())) r.push_back(e.get());
  for (auto& e : m.bdry_edges_) if (null(e->facet_l())) r.push_back(e.get());
  return r;
}

// counters and views are those of the corresponding store
inline bool law_views(Mesh& m)
{ const Mesh& c = m; return &m.vertices() == &m.verts_ && &c.vertices() == &m.verts_ && &m.quads() == &m.quads_ && &c.quads() == &m.quads_ && &m.triangles() == &m.tris_ && &c.triangles() == &m.tris_
  && &m.interior_edges() == &m.intr_edges_ && &c.interior_edges() == &m.intr_edges_ && &m.boundary_edges() == &m.bdry_edges_ && &c.boundary_edges() == &m.bdry_edges_; }

inline bool law_counts(const Mesh& m)
{ return m.n_vertices() == m.verts_.size() && m.n_quads() == m.quads_.size() && m.n_triangles() == m.tris_.size() && m.n_elements() == m.quads_.size() + m.tris_.size()
  && m.n_interior_edges() == m.intr_edges_.size() && m.n_boundary_edges() == m.bdry_edges_.size() && m.n_edges() == m.intr_edges_.size() + m.bdry_edges_.size(); }

inline bool law_area(Mesh& m, double a) { const double o = m.area(); m.add_area(a); return m.area() == o + a; }

inline bool law_color(Mesh& m, int a) { m.element_color(a); return m.element_color() == a; }

inline bool law_make(int id, int color)
{ Mesh m(id, color); return m.id() == ABS(id) && m.element_color() == ABS(color) && m.area() == 0.0; }

// meaning of left-out arguments
inline Edge* use_default_edge(Mesh& m, Vertex& a, Vertex& b) { return m.get_edge(a, b); }

inline Edge* means_default_edge(Mesh& m, Vertex& a, Vertex& b) { return m.get_edge(a, b, false); }

inline Edge* use_default_intr(Mesh& m, Vertex& a, Vertex& b) { return m.get_interior_edge(a, b); }

inline Edge* means_default_intr(Mesh& m, Vertex& a, Vertex& b) { return m.get_interior_edge(a, b, false); }

inline Edge* use_default_bdry(Mesh& m, Vertex& a, Vertex& b) { return m.get_boundary_edge(a, b); }

inline Edge* means_default_bdry(Mesh& m, Vertex& a, Vertex& b) { return m.get_boundary_edge(a, b, false); }

inline Triangle& use_default_tri(Mesh& m, Vertex& a, Vertex& b, Vertex& c) { return m.add_triangle(a, b, c); }

inline Triangle& means_default_tri(Mesh& m, Vertex& a, Vertex& b, Vertex& c) { return m.add_triangle(a, b, c, m.element_color()); }

inline Quad& use_default_quad(Mesh& m, Vertex& a, Vertex& b, Vertex& c, Vertex& d) { return m.add_quad(a, b, c, d); }

inline Quad& means_default_quad(Mesh& m, Vertex& a, Vertex& b, Vertex& c, Vertex& d) { return m.add_quad(a, b, c, d, m.element_color()); }

}}
