// Specification programs: the advancing front and its gates.
namespace vp_spec { namespace front {
using namespace TQMesh; using namespace CppUtils;

// an accepted triangle replaces its base edge: sides that already belong to the front leave it (and become mesh edges
// unless they lie on the boundary), the other sides join the front
inline void advance(FrontUpdate& u, Edge& base, Vertex& v, Triangle& t)
{
  Vertex &a = base.v1(), &b = base.v2();
  Edge* ea = u.front_.get_edge(v, a);
  Edge* eb = u.front_.get_edge(v, b);
  if (ea && ea->is_interior()) u.mesh_.add_interior_edge(ea->v1(), ea->v2());
  if (eb && eb->is_interior()) u.mesh_.add_interior_edge(eb->v1(), eb->v2());
  if (ea) u.front_.remove(*ea);
  if (eb) u.front_.remove(*eb);
  if (!ea) u.front_.add_edge(a, v);
  if (!eb) u.front_.add_edge(v, b);
  u.update_front_state(a);
  u.update_front_state(b);
  u.update_front_state(v);
  if (base.is_interior() && !base.is_ghost()) u.mesh_.add_interior_edge(a, b);
  u.front_.remove(base);
  t.is_active(true);
  u.mesh_.add_area(t.area());
}

// a new triangle is only kept if it passed the gate; with several candidates the best one wins and the rest vanish
inline Triangle* update(FrontUpdate& u, Edge& base, const Vec2d& fresh, const Vec2d& where, double range)
{
  auto cand = u.create_possible_triangles(base, where, range);
  if (cand.size() > 0) { Triangle& t = u.choose_best_triangle(cand, base); u.advance_front(base, t.v3(), t); return &t; }
  Vertex& v = u.mesh_.add_vertex(fresh);
  Triangle& t = u.mesh_.add_triangle(base.v1(), base.v2(), v);
  if (u.remove_from_mesh_if_invalid(v, t)) return nullptr;
  u.advance_front(base, v, t);
  return &t;
}

inline Triangle* update_exhaustive(FrontUpdate& u, Edge& base, Vertex& v)
{
  if (!v.on_front() || orientation(base.v1().xy(), base.v2().xy(), v.xy()) != Orientation::CCW) return nullptr;
  Triangle& t = u.mesh_.add_triangle(base.v1(), base.v2(), v);
  if (u.remove_from_mesh_if_invalid(t)) return nullptr;
  u.advance_front(base, v, t);
  return &t;
}

// whatever fails the gate is taken out of the mesh again
inline bool drop_v(FrontUpdate& u, Vertex& v) { const bool bad = !u.vertex_is_valid(v); if (bad) u.mesh_.remove_vertex(v); return bad; }

inline bool drop_t(FrontUpdate& u, Triangle& t) { const bool bad = !u.triangle_is_valid(t); if (bad) u.mesh_.remove_triangle(t); return bad; }

inline bool drop_vt(FrontUpdate& u, Vertex& v, Triangle& t)
{ if (u.vertex_is_valid(v) && u.triangle_is_valid(t)) return false; u.mesh_.remove_triangle(t); u.mesh_.remove_vertex(v); return true; }

inline bool drop_vtt(FrontUpdate& u, Vertex& v, Triangle& s, Triangle& t)
{ if (u.vertex_is_valid(v) && u.triangle_is_valid(s) && u.triangle_is_valid(t)) return false; u.mesh_.remove_triangle(s); u.mesh_.remove_triangle(t); u.mesh_.remove_vertex(v); return true; }

inline std::vector<Triangle*> candidates(FrontUpdate& u, Edge& base, const Vec2d& where, double range)
{
  std::vector<Triangle*> out;
  for (Vertex* v : u.mesh_.vertices().get_items(where, range))
    if (v->on_front() && orientation(base.v1().xy(), base.v2().xy(), v->xy()) != Orientation::CL)
    {
      Triangle& t = u.mesh_.add_triangle(base.v1(), base.v2(), *v);
      if (!u.remove_from_mesh_if_invalid(t)) out.push_back(&t);
    }
  return out;
}

inline Triangle& best(FrontUpdate& u, std::vector<Triangle*>& cand, Edge& base)
{
  std::sort(cand.begin(), cand.end(), [&u](Triangle* a, Triangle* b)
  { return b->quality(u.domain_.size_function(b->xy())) < a->quality(u.domain_.size_function(a->xy())); });
  for (std::size_t i = 1; i < cand.size(); ++i) u.mesh_.triangles().remove(*cand[i]);
  return *cand[0];
}

// the gate: valid shape, inside the domain, overlapping neither the front nor anything meshed so far, within the quality limits
inline bool tri_ok(FrontUpdate& u, const Triangle& t)
{
  const double h = u.domain_.size_function(t.xy());
  const double reach = MAX(2.0 * h, t.max_edge_length());
  return t.is_valid() && !t.intersects_front(u.front_, reach) && !t.intersects_domain(u.domain_)
    && !t.intersects_vertex(u.mesh_.vertices(), reach) && !t.intersects_triangle(u.mesh_.triangles(), reach) && !t.intersects_quad(u.mesh_.quads(), reach)
    && t.quality(h) >= u.min_cell_quality_ && t.max_angle() <= u.max_cell_angle_;
}

inline bool vertex_ok(FrontUpdate& u, const Vertex& v)
{
  const double reach = 2.0 * u.domain_.size_function(v.xy());
  return u.domain_.is_inside(v) && !v.intersects_facet(u.mesh_.triangles(), reach) && !v.intersects_facet(u.mesh_.quads(), reach);
}

inline void state(FrontUpdate& u, Vertex& v)
{
  bool on = false;
  for (const auto& e : v.edges()) if (&e->edgelist() == &u.front_) { on = true; break; }
  if (on) v.add_property(VertexProperty::on_front); else v.remove_property(VertexProperty::on_front);
}

// the front of a prepared mesh: all edges still lacking an element, with colour and properties
inline void from_mesh(Front& f, const Mesh& m)
{
  for (Edge* e : m.get_front_edges())
  {
    e->v1().add_property(VertexProperty::on_front);
    e->v2().add_property(VertexProperty::on_front);
    Edge& n = f.add_edge(e->v1(), e->v2(), e->color());
    n.set_property(e->properties());
  }
}

inline void from_domain(Front& f, const Domain& d, const FrontInitData& data, Vertices& vs)
{
  auto nv = f.init_mesh_vertices(data, vs);
  auto ne = f.init_front_edges(data, nv);
  f.mark_twin_edges(data.edges(), data.is_twin_edge(), ne);
  f.refine_front_edges(d, vs);
  for (const auto& e : f.edges_)
    if (e->is_fixed())
    {
      Edge& g = f.insert_edge(e->pos(), e->v2(), e->v1(), e->color());
      g.add_property(EdgeProperty::is_fixed);
      g.add_property(EdgeProperty::is_ghost);
    }
  f.compute_area();
}

inline Edge* base_first(Front& f) { if (f.edges_.size() == 0) return nullptr; f.base_ = f.edges_.begin()->get(); return f.base_; }

inline Edge* base_next(Front& f)
{
  if (f.edges_.size() == 0) return nullptr;
  auto it = f.base_->pos(); ++it;
  if (it == f.edges_.end()) it = f.edges_.begin();
  f.base_ = it->get();
  return f.base_;
}

inline int refine(Front& f, const Domain& d, Vertices& vs)
{
  const int before = f.edges_.size();
  std::vector<Edge*> old;
  for (Edge* e : f.get_edges_to_refine()) if (f.refine_edge(d, vs, *e)) old.push_back(e);
  for (Edge* e : old) f.edges_.remove(*e);
  return f.edges_.size() - before;
}

inline std::vector<Vertex*> make_vertices(const Front& f, const FrontInitData& data, Vertices& vs)
{
  std::vector<Vertex*> out;
  for (Vertex* v : data.vertices())
  {
    Vertex& n = vs.push_back(v->xy());
    n.add_property(VertexProperty::on_front);
    n.add_property(VertexProperty::on_boundary);
    if (v->is_fixed()) n.add_property(VertexProperty::is_fixed);
    out.push_back(&n);
  }
  return out;
}

inline std::vector<Edge*> make_edges(Front& f, const FrontInitData& data, const std::vector<Vertex*>& vs)
{
  std::vector<Edge*> out;
  for (size_t i = 0; i < data.edges().size(); ++i)
  {
    Edge& n = f.add_edge(*vs[data.vertex_ids()[i].first], *vs[data.vertex_ids()[i].second], data.colors()[i]);
    n.add_property(data.edges()[i]->is_fixed() ? EdgeProperty::is_fixed : EdgeProperty::on_boundary);
    out.push_back(&n);
  }
  return out;
}

// twins point at each other
inline void twins(Front& f, const std::vector<Edge*>& theirs, const std::vector<bool>& is_twin, const std::vector<Edge*>& ours)
{ for (size_t i = 0; i < theirs.size(); ++i) if (is_twin[i]) { ours[i]->twin_edge(theirs[i]); theirs[i]->twin_edge(ours[i]); } }

inline std::vector<Edge*> to_refine(const Front& f)
{ std::vector<Edge*> out; for (const auto& e : f.edges_) if (e->twin_edge() == nullptr) out.push_back(e.get()); return out; }

inline bool refine_one(Front& f, const Domain& d, Vertices& vs, Edge& e)
{
  auto pts = f.create_sub_vertex_coords(e, d);
  if (pts.size() < 3) return false;
  f.create_sub_edges(e, pts, d, vs);
  return true;
}

// all parts of a subdivided boundary edge keep its marker; parts of a fixed edge stay fixed
inline void sub_edges(Front& f, Edge& e, std::vector<Vec2d>& pts, const Domain& d, Vertices& vs)
{
  Vertex* last = &e.v1();
  const bool fixed = e.is_fixed();
  for (size_t i = 1; i < pts.size() - 1; ++i)
  {
    Vertex& v = vs.insert(e.v2().pos(), pts[i]);
    v.add_property(VertexProperty::on_front);
    v.add_property(fixed ? VertexProperty::is_fixed : VertexProperty::on_boundary);
    Edge& n = f.insert_edge(e.pos(), *last, v, e.color());
    n.add_property(fixed ? EdgeProperty::is_fixed : EdgeProperty::on_boundary);
    last = &v;
  }
  Edge& n = f.insert_edge(e.pos(), *last, e.v2(), e.color());
  n.add_property(fixed ? EdgeProperty::is_fixed : EdgeProperty::on_boundary);
}

// collecting the initial front: neighbouring meshes' edges replace the domain edge they lie on
inline void collect(FrontInitData& data, const Domain& d, const std::vector<Mesh*>& ms)
{
  for (const auto& b : d)
    for (const auto& e : b->edges())
    {
      auto nbr = data.get_neighbor_mesh_edges(*e, ms);
      if (nbr.size() == 0) data.add_edge_data(*e, false);
      else for (Edge* n : nbr) data.add_edge_data(*n, true);
    }
  for (const auto& e : d.fixed_edges()) data.add_edge_data(*e, false);
}

inline std::vector<Edge*> neighbors(const FrontInitData& data, const Edge& e, const std::vector<Mesh*>& ms)
{
  std::vector<Edge*> out;
  const Vec2d &a = e.v1().xy(), &b = e.v2().xy();
  for (Mesh* m : ms)
  {
    for (Edge* n : m->get_bdry_edges(e.xy(), data.edge_overlap_range_ * e.length()))
      if (in_on_segment(a, b, n->v1().xy()) && in_on_segment(a, b, n->v2().xy())) out.push_back(n);
    std::sort(out.begin(), out.end(), [a](Edge* p, Edge* q) { return (p->xy() - a).norm_sqr() < (q->xy() - a).norm_sqr(); });
  }
  return out;
}

inline bool law_overlap_range(const Domain& d) { FrontInitData f(d); return f.edge_overlap_range_ == 1.5; }

// twins are stored against the direction of their partner
inline void add_data(FrontInitData& data, const Edge& e, bool twin)
{
  const std::size_t i = data.add_edge_vertex(e.v1()), j = data.add_edge_vertex(e.v2());
  data.vertex_ids_.push_back({twin ? j : i, twin ? i : j});
  data.edges_.push_back(const_cast<Edge*>(&e));
  data.is_twin_edge_.push_back(twin);
  data.colors_.push_back(e.color());
}

// one node per place: a place that is known already keeps its number
inline std::size_t number_of(FrontInitData& data, const Vertex& v)
{
  if (data.vertex_map_.count(v.xy())) return data.vertex_map_.at(v.xy());
  const std::size_t i = data.vertices_.size();
  data.vertex_map_[v.xy()] = i;
  data.vertices_.push_back(const_cast<Vertex*>(&v));
  return i;
}

inline void by_length(Front& f, bool up)
{
  if (up) f.edges_.sort([](std::unique_ptr<Edge>& a, std::unique_ptr<Edge>& b) { return a->length() < b->length(); });
  else f.edges_.sort([](std::unique_ptr<Edge>& a, std::unique_ptr<Edge>& b) { return a->length() > b->length(); });
  f.set_base_first();
}

inline void by_distance(Front& f, const Vec2d& p, bool up)
{
  if (up) f.edges_.sort([p](std::unique_ptr<Edge>& a, std::unique_ptr<Edge>& b) { return (p - a->v1().xy()).norm_sqr() < (p - b->v1().xy()).norm_sqr(); });
  else f.edges_.sort([p](std::unique_ptr<Edge>& a, std::unique_ptr<Edge>& b) { return (p - a->v1().xy()).norm_sqr() > (p - b->v1().xy()).norm_sqr(); });
  f.set_base_first();
}

// places along an edge, from its start to its end, as far apart as the size function asks for
inline std::vector<Vec2d> places(const Front& f, const Edge& e, const Domain& d)
{
  const double r1 = d.size_function(e.v1().xy()), r2 = d.size_function(e.v2().xy());
  const bool forward = r1 < r2;
  const Vertex& from = forward ? e.v1() : e.v2();
  const Vertex& to = forward ? e.v2() : e.v1();
  const Vec2d dir = forward ? e.tangent() : -e.tangent();
  const double len = e.length();
  const double stop = 1.0 - 0.5 * MIN(1.0, 0.5 * (r1 + r2) / len);
  std::vector<Vec2d> p { from.xy() };
  Vec2d x { from.xy() };
  double done = 0.0;
  while (true)
  {
    const double a = d.size_function(x), b = d.size_function(x + a * dir);
    x = x + 0.5 * (a + b) * dir;
    done = (x - from.xy()).norm() / len;
    p.push_back(x);
    if (done > stop) break;
  }
  p[p.size() - 1] = to.xy();
  const Vec2d gap = (1.0 - done) * len * dir;
  std::vector<double> w { 0.0 };
  for (std::size_t i = 1; i < p.size() - 1; i++) w.push_back(d.size_function(p[i]));
  w.push_back(0.0);
  const double total = std::accumulate(w.begin(), w.end(), 0.0);
  std::transform(w.begin(), w.end(), w.begin(), [total](double& v) { return v / total; });
  for (std::size_t i = 1; i < p.size() - 1; i++) p[i] += w[i] * gap;
  if (!forward) std::reverse(p.begin(), p.end());
  return p;
}

}}
