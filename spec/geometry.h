// Specification programs: planar predicates.
namespace vp_spec { namespace geometry {
using namespace TQMesh; using namespace CppUtils;
using P2 = const Vec2<double>&;
inline double area2(P2 p, P2 q, P2 r) { return (q.x - p.x) * (r.y - p.y) - (q.y - p.y) * (r.x - p.x); }
// +1 left turn, -1 right turn, 0 collinear up to the tolerance
inline int side(P2 p, P2 q, P2 r)
{ double a = area2(p, q, r); if (a * a < 2.220446049250313080847263336181640625e-16) return 0; return a > 0.0 ? 1 : -1; }
inline bool apart(int a, int b) { return (a == 1 && b == -1) || (a == -1 && b == 1); }
inline double along(P2 p, P2 q, P2 r) { return (r.x - p.x) * (q.x - p.x) + (r.y - p.y) * (q.y - p.y); }
inline double len2(P2 p, P2 q) { return (q.x - p.x) * (q.x - p.x) + (q.y - p.y) * (q.y - p.y); }

inline Orientation orientation(P2 p, P2 q, P2 r)
{ int s = side(p, q, r); return s == 0 ? Orientation::CL : s > 0 ? Orientation::CCW : Orientation::CW; }

inline bool is_left(P2 p, P2 q, P2 r) { return side(p, q, r) == 1; }

inline bool is_lefton(P2 p, P2 q, P2 r) { return side(p, q, r) != -1; }

inline bool in_segment(P2 p, P2 q, P2 r)
{ return side(p, q, r) == 0 && 0.0 < along(p, q, r) && along(p, q, r) < len2(p, q); }

inline bool in_on_segment(P2 p, P2 q, P2 r)
{ return side(p, q, r) == 0 && !(along(p, q, r) < 0.0) && !(along(p, q, r) > len2(p, q)); }

inline bool line_line_crossing(P2 a, P2 b, P2 c, P2 d)
{ return apart(side(a, b, c), side(a, b, d)) && apart(side(c, d, a), side(c, d, b)); }

inline bool line_line_intersection(P2 a, P2 b, P2 c, P2 d)
{
  if (CppUtils::in_segment(a, b, c) || CppUtils::in_segment(a, b, d)) return true;
  if (CppUtils::in_segment(c, d, a) || CppUtils::in_segment(c, d, b)) return true;
  return CppUtils::line_line_crossing(a, b, c, d);
}

inline bool line_tri_intersection(P2 a, P2 b, P2 p, P2 q, P2 r)
{ using CppUtils::line_line_intersection; return line_line_intersection(a, b, r, p) || line_line_intersection(a, b, q, r) || line_line_intersection(a, b, p, q); }

inline bool line_tri_crossing(P2 a, P2 b, P2 p, P2 q, P2 r)
{ using CppUtils::line_line_crossing; return line_line_crossing(a, b, r, p) || line_line_crossing(a, b, q, r) || line_line_crossing(a, b, p, q); }

inline bool line_quad_intersection(P2 a, P2 b, P2 p, P2 q, P2 r, P2 s)
{ using CppUtils::line_line_intersection; return line_line_intersection(a, b, p, q) || line_line_intersection(a, b, q, r) || line_line_intersection(a, b, r, s) || line_line_intersection(a, b, s, p); }

inline bool tri_tri_intersection(P2 a, P2 b, P2 c, P2 p, P2 q, P2 r)
{ using CppUtils::line_tri_intersection; return line_tri_intersection(a, b, p, q, r) || line_tri_intersection(b, c, p, q, r) || line_tri_intersection(c, a, p, q, r); }

inline bool quad_quad_intersection(P2 a, P2 b, P2 c, P2 d, P2 p, P2 q, P2 r, P2 s)
{ using CppUtils::line_quad_intersection;
  return line_quad_intersection(a, b, p, q, r, s) || line_quad_intersection(b, c, p, q, r, s) || line_quad_intersection(c, d, p, q, r, s) || line_quad_intersection(d, a, p, q, r, s); }

inline bool tri_quad_intersection(P2 a, P2 b, P2 c, P2 p, P2 q, P2 r, P2 s)
{ using CppUtils::line_quad_intersection;
  return line_quad_intersection(a, b, p, q, r, s) || line_quad_intersection(b, c, p, q, r, s) || line_quad_intersection(c, a, p, q, r, s); }

inline bool rect_overlap(P2 alo, P2 ahi, P2 blo, P2 bhi)
{ return !(alo.x > bhi.x || blo.x > ahi.x || alo.y > bhi.y || blo.y > ahi.y); }

inline bool in_on_rect(P2 v, P2 lo, P2 hi) { return !(v.x < lo.x || v.x > hi.x || v.y < lo.y || v.y > hi.y); }

inline bool in_rect(P2 v, P2 lo, P2 hi) { return lo.x < v.x && v.x < hi.x && lo.y < v.y && v.y < hi.y; }

inline bool in_on_triangle(P2 v, P2 p, P2 q, P2 r) { return side(p, q, v) >= 0 && side(q, r, v) >= 0 && side(r, p, v) >= 0; }

inline bool in_triangle(P2 v, P2 p, P2 q, P2 r) { return side(p, q, v) > 0 && side(q, r, v) > 0 && side(r, p, v) > 0; }

inline bool in_on_quad(P2 v, P2 p, P2 q, P2 r, P2 s) { return side(p, q, v) >= 0 && side(q, r, v) >= 0 && side(r, s, v) >= 0 && side(s, p, v) >= 0; }

inline bool in_quad(P2 v, P2 p, P2 q, P2 r, P2 s) { return side(p, q, v) > 0 && side(q, r, v) > 0 && side(r, s, v) > 0 && side(s, p, v) > 0; }

inline double distance_point_edge_sqr(P2 p, P2 a, P2 b)
{
  double t = along(a, b, p) / len2(a, b);
  t = std::clamp(t, 0.0, 1.0);
  double x = p.x - (a.x + t * (b.x - a.x)), y = p.y - (a.y + t * (b.y - a.y));
  return x * x + y * y;
}

inline bool segment_overlap(P2 a, const Vec2<double> b, P2 c, const Vec2<double> d)
{ return (a == c && b == d) || (a == d && b == c); }

inline double polygon_area(const std::vector<Vec2<double>>& v)
{
  double s = 0.0;
  std::size_t n = v.size();
  for (std::size_t i = 0; i < n; ++i) { P2 a = v[i]; P2 b = v[MOD(i + 1, n)]; s += (a.x - b.x) * (a.y + b.y); }
  return s / 2;
}

inline Vec2<double> bbox_min(P2 a, P2 b) { return Vec2<double>{ MIN(a.x, b.x), MIN(a.y, b.y) }; }

inline Vec2<double> bbox_max(P2 a, P2 b) { return Vec2<double>{ MAX(a.x, b.x), MAX(a.y, b.y) }; }

}}
