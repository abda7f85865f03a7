// Specification programs: ordered lists of directed edges (boundaries, fronts, mesh edges).
namespace vp_spec { namespace edgelist {
using namespace TQMesh; using namespace CppUtils;

inline Edge& insert_edge(EdgeList& l, EdgeList::const_iterator pos, Vertex& a, Vertex& b, int color)
{
  Edge& e = l.edges_.insert(pos, a, b, l, color);
  if (l.orient_ != Orientation::NONE) l.compute_area();
  l.mark_objects(a, b, e);
  return e;
}

// oriented lists are single connected paths
inline Edge& add_edge(EdgeList& l, Vertex& a, Vertex& b, int color)
{
  const bool path = l.orient_ != Orientation::NONE && l.edges_.size() >= 1;
  if (path && &a != &l.edges_.back().v2()) throw std::runtime_error("");
  return l.insert_edge(l.edges_.end(), a, b, color);
}

inline bool remove(EdgeList& l, Edge& e) { return l.edges_.remove(e); }

inline void clear_edges(EdgeList& l)
{
  const size_t n = l.edges_.size();
  for (size_t i = 0; i < n; ++i) l.edges_.remove(l.edges_[0]);
  l.edges_.clear_waste();
}

// both parts of a split edge inherit color and properties, the new vertex lies on the edge
inline std::pair<Edge*, Edge*> split_edge(EdgeList& l, Edge& e, Vertices& vs, const double s)
{
  if (&e.edgelist() != &l || s <= 0.0 || s >= 1.0) return { nullptr, nullptr };
  Vertex &a = e.v1(), &b = e.v2();
  const double t = 1.0 - s;
  Vertex& m = vs.insert(b.pos(), Vec2d{ s * a.xy().x + t * b.xy().x, s * a.xy().y + t * b.xy().y }, s * a.mesh_size() + t * b.mesh_size(), s * a.size_range() + t * b.size_range());
  m.add_property(a.properties());
  m.add_property(b.properties());
  if (e.is_interior()) m.remove_property(VertexProperty::on_boundary);
  const int c = e.color();
  Edge& x = l.insert_edge(e.pos(), a, m, c);
  Edge& y = l.insert_edge(e.pos(), m, b, c);
  x.set_property(e.properties());
  y.set_property(e.properties());
  l.remove(e);
  return { &x, &y };
}

// even-odd rule along the ray to the left; end points and points on horizontal edges are inside
inline bool is_inside(const EdgeList& l, const Vec2d& p)
{
  if (l.edges_.size() < 3) return false;
  int crossings = 0;
  for (const auto& e : l.edges_)
  {
    const Vec2d &a = e->v1().xy(), &b = e->v2().xy();
    if (p == a || p == b) return true;
    if (EQ(p.y, b.y) && EQ(p.y, a.y) && in_on_segment(a, b, p)) return true;
    const bool spans = (b.y < p.y && p.y <= a.y) || (a.y < p.y && p.y <= b.y);
    const double x = b.x + (p.y - b.y) / (a.y - b.y) * (a.x - b.x);
    if (spans && x < p.x) crossings += 1;
  }
  return (crossings & 1) == 1;
}

inline Edge* get_edge_dir(const EdgeList& l, const Vertex& a, const Vertex& b)
{ for (auto e : a.edges()) if (&e->edgelist() == &l && &e->v1() == &a && &e->v2() == &b) return e; return nullptr; }

inline Edge* get_edge_nodir(const EdgeList& l, const Vertex& a, const Vertex& b)
{ for (auto e : a.edges()) if (&e->edgelist() == &l && ((&e->v1() == &a && &e->v2() == &b) || (&e->v1() == &b && &e->v2() == &a))) return e; return nullptr; }

inline Edge* get_edge(const EdgeList& l, const Vertex& a, const Vertex& b, bool directed)
{ return directed ? l.get_edge_dir(a, b) : l.get_edge_nodir(a, b); }

inline Edge* use_get_edge(const EdgeList& l, const Vertex& a, const Vertex& b) { return l.get_edge(a, b); }
inline Edge* means_get_edge(const EdgeList& l, const Vertex& a, const Vertex& b) { return l.get_edge_nodir(a, b); }

inline Edge* get_edge(const EdgeList& l, const Vertex& v, int pos)
{
  if (pos == 0) { for (auto e : v.edges()) if (&e->edgelist() == &l) return e; }
  else if (pos == 1) { for (auto e : v.edges()) if (&e->edgelist() == &l && &e->v1() == &v) return e; }
  else if (pos == 2) { for (auto e : v.edges()) if (&e->edgelist() == &l && &e->v2() == &v) return e; }
  return nullptr;
}

inline Vertex& get_closest_vertex(EdgeList& l, const Vec2d& p)
{
  Vertex* best = nullptr;
  double d = 1.0E+10;
  for (const auto& e : l.edges_)
  {
    const double x = (e->v1().xy() - p).norm_sqr();
    if (x < d) { d = x; best = &e->v1(); }
  }
  return *best;
}

inline bool hit(const Edge& e, const Edge& f) { return line_line_intersection(e.v1().xy(), e.v2().xy(), f.v1().xy(), f.v2().xy()); }
inline bool intersects_self(const EdgeList& l)
{
  for (const auto& e : l.edges_)
  {
    const Vec2d &a = e->v1().xy(), &b = e->v2().xy();
    const Edge *p = e->get_prev_edge(), *n = e->get_next_edge();
    for (auto f : l.edges_.get_items(Vec2d{ MIN(a.x, b.x), MIN(a.y, b.y) }, Vec2d{ MAX(a.x, b.x), MAX(a.y, b.y) }))
      if (f != e.get() && f != p && f != n && hit(*e, *f)) return true;
  }
  return false;
}
inline bool intersects_edgelist(const EdgeList& l, const EdgeList& o)
{
  for (const auto& e : l.edges_)
  {
    const Vec2d &a = e->v1().xy(), &b = e->v2().xy();
    for (auto f : o.edges().get_items(Vec2d{ MIN(a.x, b.x), MIN(a.y, b.y) }, Vec2d{ MAX(a.x, b.x), MAX(a.y, b.y) }))
      if (hit(*e, *f)) return true;
  }
  return false;
}

// signed area of the closed polygon (fan around the first vertex)
inline void compute_area(EdgeList& l)
{
  if (l.edges_.size() < 3) return;
  auto p = l.edges_.begin();
  const Vec2d o = (*p)->v1().xy();
  double twice = 0.0;
  for (++p; p != l.edges_.end(); ++p)
  {
    const Vec2d a = (*p)->v1().xy(), b = (*p)->v2().xy();
    twice += (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x);
  }
  l.area_ = twice / 2;
}

inline bool law_fresh(Orientation o) { EdgeList l(o); return l.orient() == o && l.area() == 0.0 && l.is_ccw() == (o == Orientation::CCW); }

inline bool check_orientation(EdgeList& l)
{
  if (l.orient_ == Orientation::NONE || l.edges_.size() < 2) return true;
  if (l.edges_.size() >= 3) return l.orient_ == Orientation::CCW ? l.area_ >= 0.0 : l.area_ <= 0.0;
  auto p = l.edges_.begin(), q = std::next(p);
  const Vertex &a = (*p)->v1(), &b = (*p)->v2(), &c = (*q)->v1(), &d = (*q)->v2();
  const bool far = &c != &a && &c != &b;
  const auto turn = orientation(a.xy(), b.xy(), far ? c.xy() : d.xy());
  return turn == l.orient_ || turn == Orientation::CL;
}

inline bool is_traversable(EdgeList& l, Edge& a, Edge& b)
{
  Edge* e = &a;
  int n = 0;
  const int m = (int)l.edges_.size();
  do { e = e->get_next_edge(); n += 1; } while (e && n < m && e != &b);
  return e == &b;
}

}}
