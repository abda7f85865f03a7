// Specification programs: what the user sets is what is used.
namespace vp_spec { namespace opt_tri {
using namespace TQMesh; using namespace CppUtils;

inline Triangulation& use_options(Triangulation& t, size_t n, double a, double b, double c, double d, double e)
{ return t.n_elements(n).mesh_range_factor(a).wide_search_factor(b).min_cell_quality(c).max_cell_angle(d).base_vertex_factor(e); }
inline Triangulation& means_options(Triangulation& t, size_t n, double a, double b, double c, double d, double e)
{
  t.n_elements_ = n; t.mesh_range_factor_ = a; t.wide_search_factor_ = b; t.base_vertex_factor_ = e;
  t.front_update_.min_cell_quality_ = c; t.front_update_.max_cell_angle_ = d;
  return t;
}

inline bool law_readback(const Triangulation& t)
{
  return t.n_elements() == t.n_elements_ && t.mesh_range_factor() == t.mesh_range_factor_ && t.wide_search_factor() == t.wide_search_factor_
      && t.min_cell_quality() == t.front_update_.min_cell_quality_ && t.max_cell_angle() == t.front_update_.max_cell_angle_ && t.base_vertex_factor() == t.base_vertex_factor_;
}

}
namespace opt_layer {
using namespace TQMesh; using namespace CppUtils;

inline QuadLayering& use_options(QuadLayering& q, size_t n, double h, double r, double a)
{ return q.n_layers(n).first_height(h).growth_rate(r).angle_factor(a); }
inline QuadLayering& means_options(QuadLayering& q, size_t n, double h, double r, double a)
{ q.n_layers_ = n; q.first_height_ = h; q.growth_rate_ = r; q.angle_factor_ = a; return q; }

inline QuadLayering& use_range(QuadLayering& q, const Vec2d& a, const Vec2d& b) { return q.starting_position(a).ending_position(b); }
inline QuadLayering& means_range(QuadLayering& q, const Vec2d& a, const Vec2d& b) { q.xy_start_ = a; q.xy_end_ = b; return q; }

inline QuadLayering& use_range_xy(QuadLayering& q, double ax, double ay, double bx, double by) { return q.starting_position(ax, ay).ending_position(bx, by); }
inline QuadLayering& means_range_xy(QuadLayering& q, double ax, double ay, double bx, double by) { q.xy_start_ = {ax, ay}; q.xy_end_ = {bx, by}; return q; }

inline bool law_readback(const QuadLayering& q)
{
  return q.n_layers() == q.n_layers_ && q.first_height() == q.first_height_ && q.growth_rate() == q.growth_rate_ && q.angle_factor() == q.angle_factor_
      && q.starting_position().x == q.xy_start_.x && q.starting_position().y == q.xy_start_.y && q.ending_position().x == q.xy_end_.x && q.ending_position().y == q.xy_end_.y;
}

}
namespace opt_smooth {
using namespace TQMesh; using namespace CppUtils;

inline void use_laplace(LaplaceSmoothing& s, double e, double d, bool q) { s.epsilon(e); s.decay(d); s.quad_layer_smoothing(q); }
inline void means_laplace(LaplaceSmoothing& s, double e, double d, bool q) { s.eps_ = e; s.decay_ = d; s.quad_layer_smoothing_ = q; }

inline void use_torsion(TorsionSmoothing& s, double e, double d, double a, bool q) { s.epsilon(e); s.decay(d); s.angle_factor(a); s.quad_layer_smoothing(q); }
inline void means_torsion(TorsionSmoothing& s, double e, double d, double a, bool q) { s.eps_ = e; s.decay_ = d; s.angle_factor_ = a; s.quad_layer_smoothing_ = q; }

inline void use_mixed(MixedSmoothing& s, double e, double d, double a, bool q) { s.epsilon(e); s.decay(d); s.angle_factor(a); s.quad_layer_smoothing(q); }
inline void means_mixed(MixedSmoothing& s, double e, double d, double a, bool q) { s.eps_ = e; s.decay_ = d; s.angle_factor_ = a; s.quad_layer_smoothing_ = q; }

}
namespace opt_domain {
using namespace TQMesh; using namespace CppUtils;

inline Boundary& use_exterior(Domain& d) { return d.add_exterior_boundary(); }
inline Boundary& means_exterior(Domain& d)
{ std::unique_ptr<Boundary> p = std::make_unique<Boundary>(d.verts_, BdryType::EXTERIOR); Boundary* b = p.get(); d.boundaries_.push_back(std::move(p)); return *b; }

inline Boundary& use_interior(Domain& d) { return d.add_interior_boundary(); }
inline Boundary& means_interior(Domain& d)
{ std::unique_ptr<Boundary> p = std::make_unique<Boundary>(d.verts_, BdryType::INTERIOR); Boundary* b = p.get(); d.boundaries_.push_back(std::move(p)); return *b; }

inline void use_drop_vertex(Domain& d, Vertex& v) { d.remove_vertex(v); }
inline void means_drop_vertex(Domain& d, Vertex& v) { d.verts_.remove(v); }

inline void use_drop_edge(Domain& d, Edge& e) { d.remove_fixed_edge(e); }
inline void means_drop_edge(Domain& d, Edge& e) { d.fixed_edges_.remove(e); }

inline Boundary& use_pick(Domain& d, size_t i) { return d[i]; }
inline Boundary& means_pick(Domain& d, size_t i) { return *d.boundaries_[i]; }

inline void use_drop_fixed(Domain& d, Vertex& v) { d.remove_fixed_vertex(v); }
inline void means_drop_fixed(Domain& d, Vertex& v)
{
  d.fixed_verts_.erase(std::remove_if(d.fixed_verts_.begin(), d.fixed_verts_.end(), [&](Vertex* a) { return *a == v; }), d.fixed_verts_.end());
  d.verts_.remove(v);
}

inline void grid(const SizeFunction& s, std::ostream& os, const Domain& d, const Vec2d& lo, const Vec2d& hi, unsigned int nx, unsigned int ny)
{
  std::vector<double> val;
  for (unsigned int j = 0; j < ny; ++j)
    for (unsigned int i = 0; i < nx; ++i)
      val.push_back(s.evaluate(Vec2d{lo.x + i * (hi.x - lo.x) / nx, lo.y + j * (hi.y - lo.y) / ny}, d));
  os << "SIZE-FUNCTION " << std::setprecision(5) << std::fixed << lo.x << " " << lo.y << " " << hi.x << " " << hi.y << " " << nx << " " << ny << "\n";
  unsigned int k = 0;
  for (unsigned int j = 0; j < (nx * ny) / 10; ++j)
  {
    for (unsigned int i = 0; i < 10; ++i)
    {
      os << std::setprecision(5) << std::fixed << val[k] << ((i == 9) ? "" : ",");
      ++k;
    }
    os << "\n";
  }
  for (; k < nx * ny; ++k) os << std::setprecision(5) << std::fixed << val[k] << ((k == nx * ny - 1) ? "" : ",");
  os << "\n";
}

}}
