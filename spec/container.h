// Specification programs: entity container and its spatial index stay in step.
namespace vp_spec { namespace container {
using namespace TQMesh;
using namespace CppUtils;

template <class T, class... A>
inline T& insert(Container<T>& c, typename Container<T>::const_iterator pos, A&... a)
{
  auto made = std::make_unique<T>(a...);
  T& item = *made;
  item.container_ = &c;
  item.in_container_ = true;
  item.pos_ = c.items_.insert(pos, std::move(made));
  c.qtree_.add(&item);
  return item;
}

template <class T>
inline bool remove(Container<T>& c, T& item)
{
  bool ok = c.qtree_.remove(&item);
  if (ok)
  {
    c.waste_.splice(c.waste_.end(), c.items_, item.pos_);
    item.container_destructor();
    item.in_container_ = false;
  }
  return ok;
}

template <class T>
inline bool update(Container<T>& c, T& item, const Vec2d& to)
{
  const auto* old_leaf = c.qtree_.get_leaf(item.xy());
  if (old_leaf && old_leaf == c.qtree_.get_leaf(to)) { item.xy_ = to; return true; }
  if (!c.qtree_.remove(&item)) return false;
  item.xy_ = to;
  return c.qtree_.add(&item);
}

template <class T> inline void clear_waste(Container<T>& c) { c.waste_.clear(); }
template <class T> inline size_t size(const Container<T>& c) { return c.items_.size(); }
template <class T> inline T& front(Container<T>& c) { return **c.items_.begin(); }
template <class T> inline T& back(Container<T>& c) { return *c.items_.back(); }

template <class T>
inline std::vector<T*> items_rect(const Container<T>& c, const Vec2d& lo, const Vec2d& hi)
{ std::vector<T*> r; c.qtree_.get_items(lo, hi, r); return r; }
template <class T>
inline std::vector<T*> items_circ(const Container<T>& c, const Vec2d& m, const double rad)
{ std::vector<T*> r; c.qtree_.get_items(m, rad, r); return r; }

template Vertex&   insert<Vertex, const Vec2d>(Container<Vertex>&, Container<Vertex>::const_iterator, const Vec2d&);
template Triangle& insert<Triangle, Vertex, Vertex, Vertex>(Container<Triangle>&, Container<Triangle>::const_iterator, Vertex&, Vertex&, Vertex&);
template Quad&     insert<Quad, Vertex, Vertex, Vertex, Vertex>(Container<Quad>&, Container<Quad>::const_iterator, Vertex&, Vertex&, Vertex&, Vertex&);
template Edge&     insert<Edge, Vertex, Vertex, EdgeList, int>(Container<Edge>&, Container<Edge>::const_iterator, Vertex&, Vertex&, EdgeList&, int&);
template size_t size<Vertex>(const Container<Vertex>&);
template Vertex& front<Vertex>(Container<Vertex>&);
template Vertex& back<Vertex>(Container<Vertex>&);
template std::vector<Vertex*> items_rect<Vertex>(const Container<Vertex>&, const Vec2d&, const Vec2d&);
template std::vector<Vertex*> items_circ<Vertex>(const Container<Vertex>&, const Vec2d&, const double);
template bool remove<Vertex>(Container<Vertex>&, Vertex&);
template bool remove<Triangle>(Container<Triangle>&, Triangle&);
template bool remove<Quad>(Container<Quad>&, Quad&);
template bool remove<Edge>(Container<Edge>&, Edge&);
template bool update<Vertex>(Container<Vertex>&, Vertex&, const Vec2d&);
template bool update<Triangle>(Container<Triangle>&, Triangle&, const Vec2d&);
template bool update<Quad>(Container<Quad>&, Quad&, const Vec2d&);
template bool update<Edge>(Container<Edge>&, Edge&, const Vec2d&);
template void clear_waste<Vertex>(Container<Vertex>&);
template void clear_waste<Triangle>(Container<Triangle>&);
template void clear_waste<Quad>(Container<Quad>&);
template void clear_waste<Edge>(Container<Edge>&);

inline const Vertex* use_at(const Container<Vertex>& c, size_t i) { return &c[i]; }
inline const Vertex* means_at(const Container<Vertex>& c, size_t i) { auto p = c.items_.begin(); std::advance(p, i); return p->get(); }

inline Vertex* use_at_mut(Container<Vertex>& c, size_t i) { return &c[i]; }
inline Vertex* means_at_mut(Container<Vertex>& c, size_t i) { auto p = c.items_.begin(); std::advance(p, i); return p->get(); }

inline const Vertex* use_front(const Container<Vertex>& c) { return &c.front(); }
inline const Vertex* means_front(const Container<Vertex>& c) { return c.items_.front().get(); }

inline const Vertex* use_back(const Container<Vertex>& c) { return &c.back(); }
inline const Vertex* means_back(const Container<Vertex>& c) { return c.items_.back().get(); }

inline Vertex* use_nearest(const Container<Vertex>& c, const Vec2d& p) { return c.get_nearest(p); }
inline Vertex* means_nearest(const Container<Vertex>& c, const Vec2d& p) { return c.qtree_.get_nearest(p); }

}}
