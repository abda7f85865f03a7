// Specification programs: mesh smoothing.
namespace vp_spec { namespace smooth {
using namespace TQMesh; using namespace CppUtils;

// boundary and fixed vertices never move, layer vertices only if requested; a position that is not valid is taken back
inline void iteration(const SmoothingStrategy& s)
{
  for (std::size_t i = 0; i < s.v_conn_.size(); ++i)
  {
    Vertex& v = *s.v_conn_[i].first;
    const bool layer = v.has_property(VertexProperty::in_quad_layer);
    const bool movable = !v.has_property(VertexProperty::is_fixed) && !v.has_property(VertexProperty::on_boundary) && (s.quad_layer_smoothing_ || !layer);
    if (!movable) continue;
    Vec2d d = s.compute_displacement(s.v_conn_[i]);
    if (layer) d -= s.bdry_direction_[i] * dot(d, s.bdry_direction_[i]);
    const Vec2d old = v.xy();
    const Vec2d p = old + s.eps_ * d;
    if (s.check_new_vertex_coordinate(p, v))
    {
      MeshCleanup::set_vertex_coordinates(v, p);
      if (!s.new_vertex_position_is_valid(v, (old - p).norm())) MeshCleanup::set_vertex_coordinates(v, old);
    }
  }
}

inline bool inside(const SmoothingStrategy& s, const Vec2d& p, const Vertex& v) { return s.domain_->is_inside(p); }

// after a move: inside the domain, every attached element counter-clockwise at all corners, and no nearby edges crossing
inline bool ccw(const Vec2d& a, const Vec2d& b, const Vec2d& c) { return orientation(a, b, c) == Orientation::CCW; }
inline bool upright(const Facet* f)
{
  if (f->n_vertices() == 3)
  {
    const Triangle& t = *static_cast<const Triangle*>(f);
    if (!ccw(t.v1().xy(), t.v2().xy(), t.v3().xy())) return false;
  }
  if (f->n_vertices() == 4)
  {
    const Quad& q = *static_cast<const Quad*>(f);
    const Vec2d &a = q.v1().xy(), &b = q.v2().xy(), &c = q.v3().xy(), &d = q.v4().xy();
    if (!(ccw(a, b, c) && ccw(b, c, d) && ccw(c, d, a) && ccw(d, a, b))) return false;
  }
  return true;
}
inline bool crossing(const Edge* e, const Edge* f) { return line_line_crossing(e->v1().xy(), e->v2().xy(), f->v1().xy(), f->v2().xy()); }
inline bool position_ok(const SmoothingStrategy& s, const Vertex& v, double)
{
  if (!s.domain_->is_inside(v)) return false;
  for (const auto& f : v.facets()) if (!upright(f)) return false;
  double r = 0.0;
  for (const auto& f : v.facets()) r = MAX(r, f->max_edge_length());
  auto in = s.mesh_->intr_edges_.get_edges(v.xy(), r);
  auto bd = s.mesh_->bdry_edges_.get_edges(v.xy(), r);
  for (std::size_t i = 0; i < in.size(); ++i)
  {
    for (std::size_t j = 0; j < in.size(); ++j) if (i != j && crossing(in[i], in[j])) return false;
    for (std::size_t j = 0; j < bd.size(); ++j) if (crossing(in[i], bd[j])) return false;
  }
  return true;
}

inline void loop(SmoothingStrategy& s, int n) { for (int i = 0; i < n; ++i) { s.smoothing_iteration(); s.eps_ = s.eps_ * -s.decay_; } }

// the neighbours of a vertex are the other corners of its elements, sorted by angle
inline void neighbors(SmoothingStrategy& s)
{
  s.v_conn_.clear();
  for (auto& v : s.mesh_->vertices())
  {
    s.v_conn_.push_back({v.get(), {}});
    auto& n = s.v_conn_.back().second;
    for (auto f : v->facets())
      for (size_t i = 0; i < f->n_vertices(); ++i)
        if (!(f->vertex(i) == *v)) n.push_back(&f->vertex(i));
    const Vec2d o = v->xy();
    std::sort(n.begin(), n.end(), [o](Vertex* a, Vertex* b) { return std::atan2(a->xy().y - o.y, a->xy().x - o.x) < std::atan2(b->xy().y - o.y, b->xy().x - o.x); });
  }
}

// layer vertices: direction to the closest point of the nearest boundary edge, one entry per vertex
inline void directions(SmoothingStrategy& s)
{
  s.bdry_direction_.clear();
  s.bdry_direction_.assign(s.mesh_->vertices().size(), Vec2d{0.0, 0.0});
  if (!s.quad_layer_smoothing_) return;
  std::size_t i = 0;
  for (auto& v : s.mesh_->vertices())
  {
    const std::size_t k = i++;
    if (!v->has_property(VertexProperty::in_quad_layer)) continue;
    Edge* e = s.mesh_->bdry_edges_.get_nearest_edge(v->xy());
    if (!e) continue;
    const Vec2d d = e->v2().xy() - e->v1().xy();
    const double t = std::clamp(dot(v->xy() - e->v1().xy(), d) / d.norm_sqr(), 0.0, 1.0);
    const Vec2d w = e->v1().xy() + t * d - v->xy();
    s.bdry_direction_[k] = w / w.norm();
  }
}

// known finding: the directions are appended behind the zero entries instead of replacing them
inline void directions_known(SmoothingStrategy& s)
{
  s.bdry_direction_.clear();
  s.bdry_direction_.assign(s.mesh_->vertices().size(), Vec2d{0.0, 0.0});
  if (!s.quad_layer_smoothing_) return;
  for (auto& v : s.mesh_->vertices())
  {
    if (!v->has_property(VertexProperty::in_quad_layer)) continue;
    Edge* e = s.mesh_->bdry_edges_.get_nearest_edge(v->xy());
    if (!e) continue;
    const Vec2d d = e->v2().xy() - e->v1().xy();
    const double t = std::clamp(dot(v->xy() - e->v1().xy(), d) / d.norm_sqr(), 0.0, 1.0);
    const Vec2d w = e->v1().xy() + t * d - v->xy();
    s.bdry_direction_.push_back(w / w.norm());
  }
}

// Laplace: towards the mean of the neighbours
inline Vec2d laplace(const LaplaceSmoothing& s, const SmoothingStrategy::VConn& c)
{
  Vec2d m{0.0, 0.0};
  const int n = (int)c.second.size();
  for (int i = 0; i < n; ++i) m += c.second[i]->xy();
  return m / (double)n - c.first->xy();
}

// torsion springs: mean of the vertex rotated about each neighbour towards the bisector of the adjacent angles
inline Vec2d torsion(const TorsionSmoothing& s, const SmoothingStrategy::VConn& c)
{
  const int n = (int)c.second.size();
  Vec2d m{0.0, 0.0};
  for (int j = 0; j < n; ++j)
  {
    const Vec2d p = c.first->xy();
    const Vec2d u = p - c.second[j]->xy();
    const double b = s.angle_factor_ * (angle(u, p - c.second[MOD(j - 1, n)]->xy()) - angle(u, p - c.second[MOD(j + 1, n)]->xy()));
    m.x += c.second[j]->xy().x + cos(b) * u.x - sin(b) * u.y;
    m.y += c.second[j]->xy().y + sin(b) * u.x + cos(b) * u.y;
  }
  return m / (double)n - c.first->xy();
}

inline void prepare(SmoothingStrategy& s) { s.init_vertex_connectivity(); s.collect_dispalcement_directions(); }
inline bool run_laplace(LaplaceSmoothing& s, int n) { MeshCleanup::setup_facet_connectivity(*s.mesh_); prepare(s); s.smoothing_loop(n); return true; }
inline bool run_torsion(TorsionSmoothing& s, int n) { MeshCleanup::setup_facet_connectivity(*s.mesh_); prepare(s); s.smoothing_loop(n); return true; }

inline bool run_mixed(MixedSmoothing& s, int n)
{
  MeshCleanup::setup_facet_connectivity(*s.mesh_);
  LaplaceSmoothing l(*s.mesh_, *s.domain_);
  l.eps_ = s.eps_; l.decay_ = s.decay_; l.quad_layer_smoothing_ = s.quad_layer_smoothing_;
  l.init_vertex_connectivity(); l.collect_dispalcement_directions();
  TorsionSmoothing t(*s.mesh_, *s.domain_);
  t.eps_ = s.eps_; t.decay_ = s.decay_; t.angle_factor_ = s.angle_factor_; t.quad_layer_smoothing_ = s.quad_layer_smoothing_;
  t.init_vertex_connectivity(); t.collect_dispalcement_directions();
  for (int i = 0; i < n; ++i)
  {
    t.smoothing_iteration();
    l.smoothing_iteration();
    s.eps_ = s.eps_ * s.decay_;
    l.eps_ = s.eps_;
    t.eps_ = s.eps_;
  }
  return true;
}

// by default layers keep their vertices
inline bool law_defaults(Mesh& m, const Domain& d) { MixedSmoothing s(m, d); LaplaceSmoothing l(m, d); TorsionSmoothing t(m, d); return !s.quad_layer_smoothing_ && !l.quad_layer_smoothing_ && !t.quad_layer_smoothing_; }

}}
