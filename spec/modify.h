// Specification programs: moving vertices, refinement, tri-to-quad conversion and mesh cleanup.
namespace vp_spec { namespace modify {
using namespace TQMesh; using namespace CppUtils;

// everything attached to a moved vertex is re-evaluated
inline void move_vertex(Vertex& v, const Vec2d& p)
{
  v.adjust_xy(p);
  for (auto& e : v.edges()) e->update_metrics();
  for (auto& f : v.facets()) f->update_metrics();
}

// refinement: meshes with twins are refused, since their neighbour would no longer conform
inline bool refine(QuadRefinement& r)
{
  r.mesh_->clear_waste();
  r.coarse_intr_edges_.clear(); r.coarse_bdry_edges_.clear(); r.coarse_quads_.clear(); r.coarse_tris_.clear();
  bool linked = false;
  for (auto& e : r.mesh_->bdry_edges_) if (e->twin_edge() != nullptr) { linked = true; break; }
  if (linked) return false;
  r.gather_entities_to_refine();
  r.refine_interior_edges();
  r.refine_boundary_edges();
  r.refine_triangles();
  r.refine_quads();
  r.remove_old_entities();
  return true;
}

inline void gather(QuadRefinement& r)
{
  for (auto& e : r.mesh_->intr_edges_) r.coarse_intr_edges_.push_back(e.get());
  for (auto& e : r.mesh_->bdry_edges_) r.coarse_bdry_edges_.push_back(e.get());
  for (auto& q : r.mesh_->quads_) r.coarse_quads_.push_back(q.get());
  for (auto& t : r.mesh_->tris_) r.coarse_tris_.push_back(t.get());
}

// an edge is halved at its midpoint; the new vertex inherits the properties of both ends
inline void halve_interior(QuadRefinement& r)
{
  for (Edge* e : r.coarse_intr_edges_)
  {
    Vertex& m = r.mesh_->add_vertex(e->xy());
    r.mesh_->intr_edges_.add_edge(e->v1(), m);
    r.mesh_->intr_edges_.add_edge(m, e->v2());
    e->sub_vertex(&m);
    m.add_property(e->v1().properties());
    m.add_property(e->v2().properties());
    if (m.has_property(VertexProperty::on_boundary)) m.remove_property(VertexProperty::on_boundary);
  }
}

inline void halve_boundary(QuadRefinement& r)
{
  for (Edge* e : r.coarse_bdry_edges_)
  {
    Vertex& m = r.mesh_->add_vertex(e->xy());
    Edge& a = r.mesh_->bdry_edges_.add_edge(e->v1(), m, e->color());
    a.add_property(EdgeProperty::on_boundary);
    Edge& b = r.mesh_->bdry_edges_.add_edge(m, e->v2(), e->color());
    b.add_property(EdgeProperty::on_boundary);
    e->sub_vertex(&m);
    m.add_property(e->v1().properties());
    m.add_property(e->v2().properties());
  }
}

// n corners: n quads around the centre, one per corner, all with the colour of the old element
inline void tri_quads(QuadRefinement& r)
{
  Mesh& m = *r.mesh_;
  for (Triangle* t : r.coarse_tris_)
  {
    Vertex &a = t->v1(), &b = t->v2(), &c = t->v3();
    Vertex* ab = m.get_edge(a, b)->sub_vertex();
    Vertex* bc = m.get_edge(b, c)->sub_vertex();
    Vertex* ca = m.get_edge(c, a)->sub_vertex();
    Vertex& o = m.add_vertex(t->xy());
    o.add_property(a.properties()); o.add_property(b.properties()); o.add_property(c.properties());
    if (o.has_property(VertexProperty::on_boundary)) o.remove_property(VertexProperty::on_boundary);
    Quad& q1 = m.add_quad(a, *ab, o, *ca);
    Quad& q2 = m.add_quad(b, *bc, o, *ab);
    Quad& q3 = m.add_quad(c, *ca, o, *bc);
    q1.color(t->color()); q2.color(t->color()); q3.color(t->color());
    m.intr_edges_.add_edge(*ab, o); m.intr_edges_.add_edge(*bc, o); m.intr_edges_.add_edge(*ca, o);
  }
}

inline void quad_quads(QuadRefinement& r)
{
  Mesh& m = *r.mesh_;
  for (Quad* q : r.coarse_quads_)
  {
    Vertex &a = q->v1(), &b = q->v2(), &c = q->v3(), &d = q->v4();
    Vertex* ab = m.get_edge(a, b)->sub_vertex();
    Vertex* bc = m.get_edge(b, c)->sub_vertex();
    Vertex* cd = m.get_edge(c, d)->sub_vertex();
    Vertex* da = m.get_edge(d, a)->sub_vertex();
    Vertex& o = m.add_vertex(q->xy());
    o.add_property(a.properties()); o.add_property(b.properties()); o.add_property(c.properties()); o.add_property(d.properties());
    if (o.has_property(VertexProperty::on_boundary)) o.remove_property(VertexProperty::on_boundary);
    Quad& q1 = m.add_quad(a, *ab, o, *da);
    Quad& q2 = m.add_quad(b, *bc, o, *ab);
    Quad& q3 = m.add_quad(c, *cd, o, *bc);
    Quad& q4 = m.add_quad(d, *da, o, *cd);
    q1.color(q->color()); q2.color(q->color()); q3.color(q->color()); q4.color(q->color());
    m.intr_edges_.add_edge(*ab, o); m.intr_edges_.add_edge(*bc, o); m.intr_edges_.add_edge(*cd, o); m.intr_edges_.add_edge(*da, o);
  }
}

inline void drop_coarse(QuadRefinement& r)
{
  for (Edge* e : r.coarse_intr_edges_) r.mesh_->remove_interior_edge(*e);
  for (Edge* e : r.coarse_bdry_edges_) r.mesh_->remove_boundary_edge(*e);
  for (Triangle* t : r.coarse_tris_) r.mesh_->remove_triangle(*t);
  for (Quad* q : r.coarse_quads_) r.mesh_->remove_quad(*q);
}

// tri-to-quad conversion
inline bool convert(Tri2QuadModification& c)
{
  MeshCleanup::setup_facet_connectivity(*c.mesh_);
  c.tri_edges_.clear();
  c.collect_triangle_edges();
  c.merge_triangles_to_quads();
  c.mesh_->clear_waste();
  MeshCleanup::clear_double_quad_edges(*c.mesh_, true);
  MeshCleanup::clear_double_triangle_edges(*c.mesh_, false);
  return true;
}

// an edge qualifies if triangles of one colour lie on both sides
inline bool is_tri(Facet* f) { return f != &NullFacet::get_instance() && f->n_vertices() == 3; }
inline bool shorter(Edge* a, Edge* b)
{ return MIN(a->facet_l()->min_edge_length(), a->facet_r()->min_edge_length()) < MIN(b->facet_l()->min_edge_length(), b->facet_r()->min_edge_length()); }
inline void collect_edges(Tri2QuadModification& c)
{
  for (const auto& e : c.mesh_->intr_edges_)
    if (is_tri(e->facet_l()) && is_tri(e->facet_r()) && e->facet_l()->color() == e->facet_r()->color()) c.tri_edges_.push_back(e.get());
  c.tri_edges_.sort([](Edge* a, Edge* b) { return shorter(a, b); });
}

// the two triangles of an edge become one quad of their colour; edges around it now refer to the quad
inline void fuse(Mesh& m, Edge* e)
{
  Facet *l = e->facet_l(), *r = e->facet_r();
  if (l->n_vertices() > 3 || r->n_vertices() > 3) return;
  Vertex &a = e->v1(), &b = e->v2();
  Vertex& p = l->vertex(l->get_edge_index(a, b));
  Vertex& q = r->vertex(r->get_edge_index(a, b));
  m.remove_interior_edge(*e);
  Quad& n = m.add_quad(p, a, q, b, l->color());
  n.is_active(true);
  for (int i = 0; i < 4; ++i)
  {
    Edge* s = m.intr_edges_.get_edge(n.vertex(i), n.vertex(MOD(i + 1, 4)));
    if (!s) continue;
    Facet *x = s->facet_l(), *y = s->facet_r();
    if (x && (x == l || x == r)) s->facet_l(&n);
    if (y && (y == l || y == r)) s->facet_r(&n);
  }
  m.remove_triangle(*static_cast<Triangle*>(l));
  m.remove_triangle(*static_cast<Triangle*>(r));
}
inline void fuse_all(Tri2QuadModification& c) { for (Edge* e : c.tri_edges_) fuse(*c.mesh_, e); }
inline void fuse_pass(Mesh& m, bool init)
{
  if (init) MeshCleanup::setup_facet_connectivity(m);
  std::list<Edge*> todo;
  for (const auto& e : m.intr_edges_)
    if (is_tri(e->facet_l()) && is_tri(e->facet_r()) && e->facet_l()->color() == e->facet_r()->color()) todo.push_back(e.get());
  todo.sort([](Edge* a, Edge* b) { return shorter(a, b); });
  for (Edge* e : todo) fuse(m, e);
  m.clear_waste();
  MeshCleanup::clear_double_quad_edges(m, true);
  MeshCleanup::clear_double_triangle_edges(m, false);
}

// two quads that share two consecutive edges (around an interior vertex) become one quad of their colour
inline void clear_quads(Mesh& m, bool init)
{
  if (init) { MeshCleanup::assign_mesh_indices(m); MeshCleanup::setup_facet_connectivity(m); }
  std::vector<std::pair<Quad*,Quad*>> quads;
  std::vector<std::pair<Edge*,Edge*>> edges;
  std::vector<Vertex*> verts;
  std::vector<std::pair<Vertex*,Vertex*>> tips;
  std::vector<bool> taken(m.n_elements(), false);
  size_t k = 0;
  for (auto& q : m.quads())
  {
    if (taken[k++]) continue;
    for (int i = 0; i < 4; ++i)
    {
      Vertex &a = q->vertex(i), &b = q->vertex(MOD(i + 1, 4)), &c = q->vertex(MOD(i + 2, 4)), &d = q->vertex(MOD(i + 3, 4));
      Facet *n = q->neighbor(q->get_edge_index(a, b)), *o = q->neighbor(q->get_edge_index(b, c));
      const bool fits = NullFacet::is_not_null(n) && NullFacet::is_not_null(o) && n == o && !b.is_fixed() && n->color() == q->color() && !taken[n->index()] && n->n_vertices() >= 4;
      if (!fits) continue;
      Quad* r = static_cast<Quad*>(n);
      Edge *e = m.intr_edges_.get_edge(a, b), *f = m.intr_edges_.get_edge(b, c);
      taken[q->index()] = true;
      taken[r->index()] = true;
      quads.push_back({q.get(), r});
      edges.push_back({e, f});
      verts.push_back(&b);
      tips.push_back({&d, &r->vertex(r->get_edge_index(b, c))});
      break;
    }
  }
  for (size_t i = 0; i < quads.size(); ++i)
  {
    Edge *e = edges[i].first, *f = edges[i].second;
    Vertex& a = e->v2() == *verts[i] ? e->v1() : e->v2();
    Vertex& c = f->v1() == *verts[i] ? f->v2() : f->v1();
    Quad& n = m.add_quad(*tips[i].first, a, *tips[i].second, c, quads[i].first->color());
    n.is_active(true);
  }
  for (size_t i = 0; i < quads.size(); ++i) { m.remove_quad(*quads[i].first); m.remove_quad(*quads[i].second); }
  for (size_t i = 0; i < edges.size(); ++i) { m.remove_interior_edge(*edges[i].first); m.remove_interior_edge(*edges[i].second); }
  for (size_t i = 0; i < verts.size(); ++i) m.remove_vertex(*verts[i]);
  MeshCleanup::assign_mesh_indices(m); MeshCleanup::setup_facet_connectivity(m);
}

// a quad and a triangle that share two consecutive edges become the triangle of the quad's other corners
inline void clear_tris(Mesh& m, bool init)
{
  if (init) { MeshCleanup::assign_mesh_indices(m); MeshCleanup::setup_facet_connectivity(m); }
  std::vector<std::pair<Quad*,Triangle*>> els;
  std::vector<std::pair<Edge*,Edge*>> edges;
  std::vector<Vertex*> verts;
  std::vector<bool> taken(m.n_elements(), false);
  size_t k = 0;
  for (auto& q : m.quads())
  {
    if (taken[k++]) continue;
    for (int i = 0; i < 4; ++i)
    {
      Vertex &a = q->vertex(i), &b = q->vertex(MOD(i + 1, 4)), &c = q->vertex(MOD(i + 2, 4));
      Facet *n = q->neighbor(q->get_edge_index(a, b)), *o = q->neighbor(q->get_edge_index(b, c));
      const bool fits = NullFacet::is_not_null(n) && NullFacet::is_not_null(o) && n == o && !b.is_fixed() && n->color() == q->color() && !taken[n->index()] && n->n_vertices() <= 3;
      if (!fits) continue;
      Triangle* t = static_cast<Triangle*>(n);
      Edge *e = m.intr_edges_.get_edge(a, b), *f = m.intr_edges_.get_edge(b, c);
      taken[q->index()] = true;
      taken[t->index()] = true;
      els.push_back({q.get(), t});
      edges.push_back({e, f});
      verts.push_back(&b);
      break;
    }
  }
  for (size_t i = 0; i < els.size(); ++i)
  {
    Quad* q = els[i].first;
    const int j = q->get_vertex_index(*verts[i]);
    Triangle& n = m.add_triangle(q->vertex(MOD(j + 1, 4)), q->vertex(MOD(j + 2, 4)), q->vertex(MOD(j + 3, 4)), q->color());
    n.is_active(true);
  }
  for (size_t i = 0; i < els.size(); ++i) { m.remove_quad(*els[i].first); m.remove_triangle(*els[i].second); }
  for (size_t i = 0; i < edges.size(); ++i) { m.remove_interior_edge(*edges[i].first); m.remove_interior_edge(*edges[i].second); }
  for (size_t i = 0; i < verts.size(); ++i) m.remove_vertex(*verts[i]);
  MeshCleanup::assign_mesh_indices(m); MeshCleanup::setup_facet_connectivity(m);
}

// three triangles of one colour around a free vertex become the triangle of their outer corners
inline bool tri_at(const Vertex& v, int i) { return v.facets(i).n_vertices() == 3; }
inline Vertex& after(const Triangle* t, const Vertex& v) { return const_cast<Vertex&>(t->vertex(MOD(t->get_vertex_index(v) + 1, 3))); }
inline void merge_three(Mesh& m, bool)
{
  std::list<Vertex*> found;
  for (const auto& v : m.vertices())
    if (!v->is_fixed() && v->facets().size() == 3 && v->edges().size() == 3 && tri_at(*v, 0) && tri_at(*v, 1) && tri_at(*v, 2)
        && v->facets(0).color() == v->facets(1).color() && v->facets(0).color() == v->facets(2).color()) found.push_back(v.get());
  for (Vertex* v : found)
  {
    const Triangle *t0 = static_cast<const Triangle*>(&v->facets(0)), *t1 = static_cast<const Triangle*>(&v->facets(1)), *t2 = static_cast<const Triangle*>(&v->facets(2));
    const int color = t0->color();
    Vertex &a = after(t0, *v), &b = after(t1, *v), &c = after(t2, *v);
    Edge *ea = m.intr_edges_.get_edge(*v, a), *eb = m.intr_edges_.get_edge(*v, b), *ec = m.intr_edges_.get_edge(*v, c);
    m.remove_interior_edge(*ea); m.remove_interior_edge(*eb); m.remove_interior_edge(*ec);
    m.remove_triangle(const_cast<Triangle&>(*t0)); m.remove_triangle(const_cast<Triangle&>(*t1)); m.remove_triangle(const_cast<Triangle&>(*t2));
    m.remove_vertex(*v);
    if (orientation(a.xy(), b.xy(), c.xy()) == Orientation::CCW) m.add_triangle(a, b, c, color); else m.add_triangle(a, c, b, color);
  }
  m.clear_waste();
  MeshCleanup::assign_mesh_indices(m); MeshCleanup::setup_facet_connectivity(m);
}

}}
