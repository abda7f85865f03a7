// Specification programs: the meshing drivers (triangulation, quad layers).
namespace vp_spec { namespace drive {
using namespace TQMesh; using namespace CppUtils;

// the front is built from the mesh; its first edge is the base
inline Edge* start(MeshingStrategy& s, bool sort)
{
  s.front_.init_front(s.mesh_);
  Edge* base = s.front_.set_base_first();
  if (sort) s.front_.sort_edges(false);
  return base;
}

// interior edges that stood in for an earlier front are dropped
inline void drop_stale(MeshingStrategy& s)
{
  for (Edge* e : s.mesh_.get_front_edges()) s.mesh_.remove_interior_edge(*e);
}

// what is left of the front becomes part of the mesh, once, and its vertices leave the front
inline void keep_rest(MeshingStrategy& s)
{
  for (auto& e : s.front_.edges())
  {
    e->v1().remove_property(VertexProperty::on_front);
    e->v2().remove_property(VertexProperty::on_front);
    bool known = s.mesh_.interior_edges().get_edge(e->v1(), e->v2()) != nullptr || s.mesh_.boundary_edges().get_edge(e->v1(), e->v2()) != nullptr;
    if (!known) s.mesh_.add_interior_edge(e->v1(), e->v2());
  }
}

inline bool triangulate(Triangulation& t)
{
  if (t.mesh_.n_boundary_edges() == 0) return false;
  t.n_generated_ = 0;
  MeshCleanup::setup_facet_connectivity(t.mesh_);
  Edge* base = t.init_advancing_front();
  t.remove_invalid_mesh_edges();
  bool ok = t.advancing_front_loop(base, t.n_elements_);
  if (!ok)
  {
    int left = static_cast<int>(t.n_elements_ - t.n_generated_);
    if (left < 0) left = 0;
    ok = t.exhaustive_search_loop(base, left);
  }
  t.add_remaining_front_edges_to_mesh();
  t.front_.clear_edges();
  if (EntityChecks::check_mesh_validity(t.mesh_))
  {
    MeshCleanup::clear_double_quad_edges(t.mesh_);
    MeshCleanup::clear_double_triangle_edges(t.mesh_);
    MeshCleanup::merge_degenerate_triangles(t.mesh_);
  }
  return ok;
}

inline bool triangulate_exhaustive(Triangulation& t)
{
  if (t.mesh_.n_boundary_edges() == 0) return false;
  t.n_generated_ = 0;
  MeshCleanup::setup_facet_connectivity(t.mesh_);
  Edge* base = t.init_advancing_front();
  t.remove_invalid_mesh_edges();
  bool ok = t.exhaustive_search_loop(base, t.n_elements_);
  t.add_remaining_front_edges_to_mesh();
  t.front_.clear_edges();
  return ok;
}

// the new vertex stands on the middle of the base, no farther than the local element size
inline Triangle* advance_triangle(Triangulation& t, Edge& base, bool wide)
{
  double len = 0.8660254038 * t.base_vertex_factor_ * base.length();
  double rho = t.domain_.size_function(base.xy());
  if (rho < len) len = rho;
  Vec2d p { base.xy().x + len * base.normal().x, base.xy().y + len * base.normal().y };
  double range = t.mesh_range_factor_ * len;
  if (wide) range = range * t.wide_search_factor_;
  return t.front_update_.update_front(base, p, p, range);
}

// the loop ends with success only for an empty front or the requested number of elements,
// and with failure only after a complete round of wide searches
inline bool front_loop(Triangulation& t, Edge* base, int n)
{
  unsigned int tried = 0;
  bool wide = false;
  for (;;)
  {
    if (t.advance_front_triangle(*base, wide))
    {
      ++t.n_generated_;
      if (wide) t.front_.sort_edges(false);
      tried = 0; wide = false;
      base = t.front_.set_base_first();
      t.mesh_.clear_waste();
    }
    else { base = t.front_.set_base_next(); ++tried; }
    if (tried == t.front_.size() && !wide) { wide = true; tried = 0; }
    t.update_progress_bar();
    if (t.front_.size() == 0) return true;
    if (n > 0 && t.n_generated_ == n) return true;
    if (tried == t.front_.size() && wide) return false;
  }
}

inline bool exhaustive_loop(Triangulation& t, Edge* base, int n)
{
  unsigned int tried = 0;
  t.front_.sort_edges();
  t.n_generated_ = 0;
  base = t.front_.set_base_first();
  while (base)
  {
    if (t.exhaustive_search_triangle(*base))
    {
      ++t.n_generated_;
      tried = 0;
      base = t.front_.set_base_first();
      t.mesh_.clear_waste();
    }
    else { base = t.front_.set_base_next(); ++tried; }
    t.update_progress_bar();
    if (tried == t.front_.size()) return base == nullptr;
    if (t.front_.size() == 0) return true;
    if (n > 0 && t.n_generated_ == n) return true;
  }
  return true;
}

// every vertex of the loop of front edges is tried in turn
inline bool exhaustive_triangle(Triangulation& t, Edge& base)
{
  std::size_t i = 0;
  for (Edge* e = base.get_next_edge(); e && e != &base && i < t.front_.size(); e = e->get_next_edge())
  {
    Vertex& v = e->v2();
    if (v != base.v1() && v != base.v2() && t.front_update_.update_front_exhaustive(base, v)) return true;
    ++i;
  }
  return false;
}

// quad layers
inline bool layers(QuadLayering& q)
{
  if (q.mesh_.n_boundary_edges() == 0) return false;
  MeshCleanup::setup_facet_connectivity(q.mesh_);
  q.init_advancing_front(false);
  q.remove_invalid_mesh_edges();
  double h = q.first_height_;
  bool ok = true;
  for (size_t i = 0; i < q.n_layers_; ++i)
  {
    ok = q.generate_quad_layer(h);
    if (!ok) break;
    h = h * q.growth_rate_;
  }
  q.add_remaining_front_edges_to_mesh();
  q.front_.clear_edges();
  return ok;
}

inline bool one_layer(QuadLayering& q, double height)
{
  if (!q.find_start_and_ending_edges(q.xy_start_, q.xy_end_)) return false;
  QuadLayerVertices l { *q.e_start_, *q.e_end_, q.closed_layer_, height, q.angle_factor_ };
  l.smooth_heights(q.domain_);
  l.setup_vertex_projection(q.mesh_, q.front_);
  q.create_quad_layer(l);
  q.finish_quad_layer(l);
  q.mesh_.clear_waste();
  return q.find_next_layer_endings(l);
}

inline bool next_ends(QuadLayering& q, QuadLayerVertices& l)
{
  int n = l.n_base_edges();
  Vertex* a = nullptr;
  for (int i = 0; i < n; ++i) { a = l.v1_proj_[i]; if (a && a->on_front()) break; }
  Vertex* b = a;
  if (!q.closed_layer_)
    for (int i = n - 1; i >= 0; --i) { b = l.v2_proj_[i]; if (b && b->on_front()) break; }
  if (!a || !b) return false;
  q.xy_start_ = a->xy();
  q.xy_end_ = b->xy();
  return true;
}

inline void make_layer(QuadLayering& q, QuadLayerVertices& l)
{
  int n = l.n_base_edges();
  for (int i = 0; i < n; ++i)
  {
    if (!l.base_edges_[i]->in_container()) continue;
    auto p = q.create_quad_layer_element(*l.base_edges_[i], *l.v1_base_[i], l.v1_proj_xy_[i], *l.v2_base_[i], l.v2_proj_xy_[i]);
    l.v1_proj_[i] = p.first;
    l.v2_proj_[i] = p.second;
  }
}

// two triangles on the base, replaced by a quad where their common edge is inside the mesh
inline std::pair<Vertex*, Vertex*> layer_element(QuadLayering& q, Edge& base, Vertex& a, const Vec2d& pa, Vertex& b, const Vec2d& pb)
{
  Triangle* s = q.front_update_.update_front(base, pa, pa, q.range_factor_ * (a.xy() - pa).norm());
  if (!s) return { nullptr, nullptr };
  Vertex& u = s->v3();
  Edge* diag = q.front_.get_edge(u, b);
  if (!diag) return { &u, nullptr };
  Triangle* t = q.front_update_.update_front(*diag, pb, pb, q.range_factor_ * (b.xy() - pb).norm());
  if (!t) return { &u, nullptr };
  Vertex& w = t->v3();
  Edge* inner = q.mesh_.interior_edges().get_edge(b, u);
  if (inner)
  {
    q.mesh_.remove_interior_edge(*inner);
    q.mesh_.remove_triangle(*s);
    q.mesh_.remove_triangle(*t);
    Quad& k = q.mesh_.add_quad(a, b, w, u);
    k.is_active(true);
  }
  return { &u, &w };
}

// gaps between neighbouring elements are closed, all vertices of the layer are marked
inline void finish_layer(QuadLayering& q, QuadLayerVertices& l)
{
  int n = l.n_base_edges();
  for (int i = 1; i < n; ++i)
    if (l.v1_proj_[i] && l.v2_proj_[i-1] && l.v1_proj_[i] != l.v2_proj_[i-1])
      q.close_quad_layer_gap(*l.v2_proj_[i-1], *l.v1_base_[i], *l.v1_proj_[i]);
  for (int i = 0; i < n; ++i)
  {
    if (l.v1_base_[i]) l.v1_base_[i]->add_property(VertexProperty::in_quad_layer);
    if (l.v2_base_[i]) l.v2_base_[i]->add_property(VertexProperty::in_quad_layer);
    if (l.v1_proj_[i]) l.v1_proj_[i]->add_property(VertexProperty::in_quad_layer);
    if (l.v2_proj_[i]) l.v2_proj_[i]->add_property(VertexProperty::in_quad_layer);
  }
}

inline void close_gap(QuadLayering& q, Vertex& a, Vertex& b, Vertex& c)
{
  Vec2d s = a.xy() - b.xy();
  Vec2d t = c.xy() - b.xy();
  if (angle(s, t) <= q.angle_factor_ * CPPUTILS_PI_HALF)
  {
    Triangle& n = q.mesh_.add_triangle(a, b, c);
    if (!q.front_update_.remove_from_mesh_if_invalid(n))
      q.front_update_.advance_front(*q.front_.get_edge(b, c), a, n);
    return;
  }
  Vertex& v = q.mesh_.add_vertex(b.xy() + s + t);
  Triangle& n1 = q.mesh_.add_triangle(a, b, v);
  Triangle& n2 = q.mesh_.add_triangle(b, c, v);
  if (q.front_update_.remove_from_mesh_if_invalid(v, n1, n2)) return;
  q.front_update_.advance_front(*q.front_.get_edge(a, b), v, n1);
  q.front_update_.advance_front(*q.front_.get_edge(b, c), v, n2);
}

inline bool layer_ends(QuadLayering& q, const Vec2d& ps, const Vec2d& pe)
{
  Vertex& vs = q.front_.get_closest_vertex(ps);
  Vertex& ve = q.front_.get_closest_vertex(pe);
  Edge* s = q.front_.get_edge(vs, 1);
  Edge* e = q.front_.get_edge(ve, 2);
  if (!q.front_.is_traversable(*s, *e)) return false;
  bool closed = (vs == ve);
  if (closed)
  {
    Vec2d x = e->v2().xy();
    double a = angle(e->v1().xy() - x, s->v2().xy() - x);
    Edge* n = s->get_next_edge();
    if (n && a <= q.angle_factor_ * CPPUTILS_PI_HALF) { e = s; s = n; }
  }
  q.e_start_ = s; q.e_end_ = e; q.closed_layer_ = closed;
  return true;
}

// one entry per base edge from the first to the last, projected along its normal
inline void layer_edge(QuadLayerVertices& l, Edge& e)
{
  double h = l.height_;
  if (e.length() < h) h = e.length();
  l.base_edges_.push_back(&e);
  l.v1_base_.push_back(&e.v1());
  l.v2_base_.push_back(&e.v2());
  l.heights_.push_back(h);
  l.v1_proj_xy_.push_back(e.v1().xy() + e.normal() * h);
  l.v2_proj_xy_.push_back(e.v2().xy() + e.normal() * h);
  l.v1_proj_.push_back(nullptr);
  l.v2_proj_.push_back(nullptr);
}

inline void layer_collect(QuadLayerVertices& l, Edge& s, Edge& e, bool closed, double h, double af)
{
  l.e_start_ = &s; l.e_end_ = &e; l.is_closed_ = closed; l.height_ = h; l.angle_factor_ = af;
  for (Edge* k = &s; k != &e; k = k->get_next_edge()) l.add_quadlayer_edge(*k);
  l.add_quadlayer_edge(e);
}

inline void layer_heights(QuadLayerVertices& l, const Domain& d)
{
  for (size_t i = 1; i < l.heights_.size() - 1; ++i)
  {
    double m = (l.heights_[i-1] + l.heights_[i] + l.heights_[i+1]) / 3.0;
    double rho = d.size_function(l.base_edges_[i]->xy());
    l.heights_[i] = rho < m ? rho : m;
  }
}

inline void layer_projection(QuadLayerVertices& l, Mesh& mesh, Front& front)
{
  for (size_t i = 1; i < l.base_edges_.size(); ++i) l.adjust_projected_vertex_coordinates(i - 1, i);
  if (l.is_closed_) l.adjust_projected_vertex_coordinates(l.n_base_edges() - 1, 0);
  else
  {
    l.place_start_vertex(mesh.vertices(), front, mesh.boundary_edges());
    l.place_end_vertex(mesh.vertices(), front, mesh.boundary_edges());
  }
}

// neighbouring base edges share one projected vertex on the bisector, except at convex wedges
inline void layer_corner(QuadLayerVertices& l, int i, int j)
{
  Vec2d p = l.v1_base_[i]->xy();
  Vec2d q = l.v1_base_[j]->xy();
  Vec2d r = l.v2_base_[j]->xy();
  double a = angle(p - q, r - q);
  if (is_left(p, r, q) && a <= l.angle_factor_ * CPPUTILS_PI_HALF) return;
  Vec2d m = 0.5 * (l.base_edges_[i]->normal() + l.base_edges_[j]->normal());
  double h = 0.5 * (l.heights_[i] + l.heights_[j]);
  Vec2d x = q + m / m.norm() * h / sin(0.5 * a);
  l.v1_proj_xy_[j] = x;
  l.v2_proj_xy_[i] = x;
}

// where the layer begins or ends next to a boundary, the outer vertex lies on that boundary; boundary corners,
// fixed vertices and edges shared with another mesh keep their place
inline bool can_slide(const Vertex& v, const Edge* e1, const Edge* e2)
{
  if (v.is_fixed()) return false;
  if (!v.on_boundary()) return true;
  return e1 != nullptr && e2 != nullptr && orientation(e1->v1().xy(), v.xy(), e2->v2().xy()) == Orientation::CL;
}
inline void layer_begin(QuadLayerVertices& l, Vertices& verts, Front& front, EdgeList& bdry)
{
  Edge* ep = l.e_start_->get_prev_edge();
  Vertex& vs = *l.v1_base_[0];
  Vertex& vp = ep->v1();
  if (!is_left(vs.xy(), l.v2_base_[0]->xy(), vp.xy())) return;
  double h = l.heights_[0];
  if ((vp.xy() - l.v1_proj_xy_[0]).norm_sqr() < h * h)
  {
    if (!can_slide(vp, ep->get_prev_edge(), ep)) { l.v1_proj_xy_[0] = vp.xy(); return; }
    Vec2d d = vp.xy() - vs.xy();
    Vec2d x = vs.xy() + d * (dot(d, l.v1_proj_xy_[0] - vs.xy()) / d.norm_sqr());
    MeshCleanup::set_vertex_coordinates(vp, x);
    l.v1_proj_xy_[0] = x;
    return;
  }
  Edge* eb = bdry.get_edge(ep->v1(), ep->v2());
  if (h < ep->length() && !(eb && eb->twin_edge()))
  {
    double a = angle(vp.xy() - vs.xy(), l.v1_proj_xy_[0] - vs.xy());
    auto ne = front.split_edge(*ep, verts, h * cos(a) / ep->length());
    if (eb)
    {
      Edge* nx = eb->get_next_edge();
      bdry.remove(*eb);
      Edge& f1 = bdry.insert_edge(nx->pos(), ne.first->v1(), ne.first->v2(), ne.first->color());
      f1.set_property(ne.first->properties());
      Edge& f2 = bdry.insert_edge(nx->pos(), ne.second->v1(), ne.second->v2(), ne.second->color());
      f2.set_property(ne.second->properties());
    }
    l.v1_proj_xy_[0] = ne.first->v2().xy();
    return;
  }
  l.v1_proj_xy_[0] = vp.xy();
}
inline void layer_end(QuadLayerVertices& l, Vertices& verts, Front& front, EdgeList& bdry)
{
  Edge* en = l.e_end_->get_next_edge();
  Vertex& ve = *l.v2_base_.back();
  Vertex& vn = en->v2();
  if (!is_left(l.v1_base_.back()->xy(), ve.xy(), vn.xy())) return;
  double h = l.heights_.back();
  if ((vn.xy() - l.v2_proj_xy_.back()).norm_sqr() < h * h)
  {
    if (!can_slide(vn, en, en->get_next_edge())) { l.v2_proj_xy_.back() = vn.xy(); return; }
    Vec2d d = vn.xy() - ve.xy();
    Vec2d x = ve.xy() + d * (dot(d, l.v2_proj_xy_.back() - ve.xy()) / d.norm_sqr());
    MeshCleanup::set_vertex_coordinates(vn, x);
    l.v2_proj_xy_.back() = x;
    return;
  }
  Edge* eb = bdry.get_edge(en->v1(), en->v2());
  if (h < en->length() && !(eb && eb->twin_edge()))
  {
    double a = angle(vn.xy() - ve.xy(), l.v2_proj_xy_.back() - ve.xy());
    auto ne = front.split_edge(*en, verts, 1.0 - h * cos(a) / en->length());
    if (eb)
    {
      Edge* nx = eb->get_next_edge();
      bdry.remove(*eb);
      Edge& f1 = bdry.insert_edge(nx->pos(), ne.first->v1(), ne.first->v2(), ne.first->color());
      f1.set_property(ne.first->properties());
      Edge& f2 = bdry.insert_edge(nx->pos(), ne.second->v1(), ne.second->v2(), ne.second->color());
      f2.set_property(ne.second->properties());
    }
    l.v2_proj_xy_.back() = ne.first->v2().xy();
    return;
  }
  l.v2_proj_xy_.back() = vn.xy();
}

}}
