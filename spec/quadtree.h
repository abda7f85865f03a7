// Specification programs: the spatial index.
namespace vp_spec { namespace quadtree {
using namespace TQMesh; using namespace CppUtils;
using QT = QuadTree<Vertex, double>;

// an item is stored in the first leaf (children in order) whose closed rectangle contains it
inline bool add(QT& t, Vertex* item)
{
  if (item == nullptr) return false;
  if (!in_on_rect(item->xy(), t.lowleft_, t.upright_)) return false;
  if (t.split_) return t.pass_children(item);
  t.items_.push_back(item);
  t.add_item_number(1);
  bool overfull = t.items_.size() > t.max_item_;
  if (overfull && t.depth_ < t.max_depth_) { try { t.split_qtree(); } catch (std::exception const& e) { } }
  return true;
}

inline bool pass_children(QT& t, Vertex* item)
{
  if (t.children_[0]->add(item)) return true;
  if (t.children_[1]->add(item)) return true;
  if (t.children_[2]->add(item)) return true;
  return t.children_[3]->add(item);
}

inline bool remove(QT& t, Vertex* item)
{
  if (item == nullptr) return false;
  if (!in_on_rect(item->xy(), t.lowleft_, t.upright_)) return false;
  if (!t.split_) { t.items_.remove(item); t.add_item_number(-1); return true; }
  if (!t.children_[0]->remove(item))
    if (!t.children_[1]->remove(item))
      if (!t.children_[2]->remove(item))
        t.children_[3]->remove(item);
  if (t.n_items_ <= t.max_item_) t.merge();
  return true;
}

inline void add_item_number(QT& t, int k)
{
  t.n_items_ = t.n_items_ + k;
  if (t.parent_ != nullptr) t.parent_->add_item_number(k);
}

inline bool merge(QT& t)
{
  for (int i = 0; i < 4; ++i) if (t.children_[i]->split()) return false;
  for (int i = 0; i < 4; ++i)
  {
    for (auto item : t.children_[i]->items()) t.items_.push_back(item);
    delete t.children_[i];
  }
  t.split_ = false;
  return true;
}

inline void update_attributes(QT& t, double scale, size_t items, size_t depth, const Vec2<double>& center)
{
  if (t.split_ || t.parent_ || t.n_items_ > 0) TERMINATE("");
  t.scale_ = scale; t.halfscale_ = scale / 2;
  t.max_item_ = items; t.max_depth_ = depth;
  t.center_ = center;
  t.lowleft_ = Vec2<double>{ center.x - scale/2, center.y - scale/2 };
  t.upright_ = Vec2<double>{ center.x + scale/2, center.y + scale/2 };
}

inline void split_qtree(QT& t)
{
  const double q = t.halfscale_ / 2;
  const Vec2<double>& m = t.center_;
  const size_t d = t.depth_ + 1;
  t.children_[0] = new QT { t.halfscale_, t.max_item_, t.max_depth_, Vec2<double>{ m.x + q, m.y + q }, d, &t };
  t.children_[1] = new QT { t.halfscale_, t.max_item_, t.max_depth_, Vec2<double>{ m.x - q, m.y + q }, d, &t };
  t.children_[2] = new QT { t.halfscale_, t.max_item_, t.max_depth_, Vec2<double>{ m.x - q, m.y - q }, d, &t };
  t.children_[3] = new QT { t.halfscale_, t.max_item_, t.max_depth_, Vec2<double>{ m.x + q, m.y - q }, d, &t };
  t.distribute_items();
  if (t.items_.size() > 0) throw std::runtime_error("");
  t.split_ = true;
}

inline void distribute_items(QT& t)
{
  while (t.items_.size() > 0)
  {
    auto item = t.items_.back();
    bool ok = t.children_[0]->add(item);
    if (!ok) ok = t.children_[1]->add(item);
    if (!ok) ok = t.children_[2]->add(item);
    if (!ok) ok = t.children_[3]->add(item);
    if (!ok) throw std::runtime_error("");
    t.add_item_number(-1);
    t.items_.pop_back();
  }
}

inline const QT* get_leaf(const QT& t, const Vec2<double>& p)
{
  if (!in_on_rect(p, t.lowleft_, t.upright_)) return nullptr;
  if (t.split_)
    for (auto ch : t.children_) { const QT* leaf = ch->get_leaf(p); if (leaf != nullptr) return leaf; }
  return &t;
}

inline size_t items_rect(const QT& t, const Vec2<double>& lo, const Vec2<double>& hi, std::vector<Vertex*>& found, QT::RectQuery qf)
{
  size_t n = 0;
  if (!rect_overlap(t.lowleft_, t.upright_, lo, hi)) return 0;
  if (t.split_) { for (auto ch : t.children_) n += ch->get_items(lo, hi, found); return n; }
  for (auto it : t.items_) if (qf(it, lo, hi)) { found.push_back(it); n += 1; }
  return n;
}

inline size_t items_circ(const QT& t, const Vec2<double>& c, double r, std::vector<Vertex*>& found, QT::CircQuery qf)
{
  size_t n = 0;
  const double s = 1.4142 * r;
  if (!rect_overlap(t.lowleft_, t.upright_, Vec2<double>{c.x - s, c.y - s}, Vec2<double>{c.x + s, c.y + s})) return 0;
  if (t.split_) { for (auto ch : t.children_) n += ch->get_items(c, r, found); return n; }
  for (auto it : t.items_) if (qf(it, c, r * r)) { found.push_back(it); n += 1; }
  return n;
}

inline bool rect_query(Vertex* item, const Vec2<double>& lo, const Vec2<double>& hi)
{ return item->xy().x >= lo.x && item->xy().x <= hi.x && item->xy().y >= lo.y && item->xy().y <= hi.y; }

inline bool circ_query(Vertex* item, const Vec2<double>& c, const double r2)
{ double dx = item->xy().x - c.x, dy = item->xy().y - c.y; return dx*dx + dy*dy < r2; }

inline bool nearest_query(Vertex* item, const Vec2<double>& c, double& best)
{
  double dx = item->xy().x - c.x, dy = item->xy().y - c.y, d = dx*dx + dy*dy;
  if (!(d < best)) return false;
  best = d;
  return true;
}

inline bool law_fresh(double scale, size_t items, size_t depth, const Vec2<double>& c, size_t level, QT* up)
{ QT t(scale, items, depth, c, level, up); const double h = scale / 2;
  return t.size() == 0 && !t.split() && t.items().size() == 0 && t.scale() == scale && t.max_items() == items && t.max_depth() == depth && t.center().x == c.x && t.center().y == c.y
      && t.lowleft().x == c.x - h && t.lowleft().y == c.y - h && t.upright().x == c.x + h && t.upright().y == c.y + h && t.depth_ == level && t.parent_ == up; }

inline bool law_fresh_root(double scale, size_t items, size_t depth)
{ QT t(scale, items, depth); const double h = scale / 2;
  return t.size() == 0 && !t.split() && t.items().size() == 0 && t.center().x == 0 && t.center().y == 0 && t.lowleft().x == -h && t.upright().y == h && t.depth_ == 0 && t.parent_ == nullptr; }

inline void use_scale(QT& t, double v) { t.scale(v); }
inline void means_scale(QT& t, double v) { t.update_attributes(v, t.max_item_, t.max_depth_, t.center_); }

inline void use_max_item(QT& t, size_t v) { t.max_item(v); }
inline void means_max_item(QT& t, size_t v) { t.update_attributes(t.scale_, v, t.max_depth_, t.center_); }

inline void use_max_depth(QT& t, size_t v) { t.max_depth(v); }
inline void means_max_depth(QT& t, size_t v) { t.update_attributes(t.scale_, t.max_item_, v, t.center_); }

inline void use_center(QT& t, const Vec2<double>& v) { t.center(v); }
inline void means_center(QT& t, const Vec2<double>& v) { t.update_attributes(t.scale_, t.max_item_, t.max_depth_, v); }

// nearest: first the leaf of the query, then everything closer than a multiple of the best
// distance so far, then (nothing in the vicinity) all items
inline Vertex* use_nearest(const QT& t, const Vec2<double>& p) { return t.get_nearest(p); }
inline bool closer(Vertex* x, const Vec2<double>& p, double& best)
{ const double d = (x->xy() - p).norm_sqr(); if (d < best) { best = d; return true; } return false; }
inline Vertex* means_nearest(const QT& t, const Vec2<double>& p)
{
  const QT* leaf = t.get_leaf(p);
  if (leaf == nullptr) leaf = &t;
  double best = 4 * leaf->scale() * leaf->scale();
  Vertex* win = nullptr;
  for (auto x : leaf->items()) if (closer(x, p, best)) win = x;
  std::vector<Vertex*> near;
  t.get_items(p, 4 * sqrt(best), near);
  for (auto x : near) if (closer(x, p, best)) win = x;
  if (win) return win;
  best = std::numeric_limits<double>::max();
  near.clear();
  t.get_items(t.lowleft_, t.upright_, near);
  for (auto x : near) if (closer(x, p, best)) win = x;
  return win;
}

}}
