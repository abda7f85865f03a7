// Laws of the small vectors and of the scalar helpers, over their own code.
namespace vp_spec { namespace vectors {
using namespace TQMesh; using namespace CppUtils;
using V = const Vec2<double>&;
using D = double;
inline bool is(V v, D x, D y) { return v.entries_[0] == x && v.entries_[1] == y; }
inline D X(V v) { return v.entries_[0]; }
inline D Y(V v) { return v.entries_[1]; }
inline D n2(V v) { return X(v) * X(v) + Y(v) * Y(v); }

inline bool law_make(D x, D y) { Vec2<double> v { x, y }; return is(v, x, y); }

inline bool law_copy(V a) { Vec2<double> v { a }; return is(v, X(a), Y(a)); }

inline bool law_assign(V a, D x, D y) { Vec2<double> v { x, y }; v = a; return is(v, X(a), Y(a)); }

inline bool law_members(V a) { Vec2<double> v { a }; return v.x == X(a) && v.y == Y(a) && v.get_x() == X(a) && v.get_y() == Y(a); }

inline bool law_index(V a) { return a[0] == X(a) && a[1] == Y(a) && a.get_x() == X(a) && a.get_y() == Y(a); }

inline bool law_members3(const Vec3<double>& a)
{
  Vec3<double> v { a };
  const D x = a.entries_[0], y = a.entries_[1], z = a.entries_[2];
  return v.x == x && v.y == y && v.z == z && v.get_x() == x && v.get_y() == y && v.get_z() == z && a.get_z() == z && a[2] == z;
}

inline bool law_negate(V a) { return is(-a, -X(a), -Y(a)); }

inline bool law_add(V a, V b) { return is(a + b, X(a) + X(b), Y(a) + Y(b)); }

inline bool law_sub(V a, V b) { return is(a - b, X(a) - X(b), Y(a) - Y(b)); }

inline bool law_mul(V a, V b) { return is(a * b, X(a) * X(b), Y(a) * Y(b)); }

inline bool law_div(V a, V b) { return is(a / b, X(a) / X(b), Y(a) / Y(b)); }

inline bool law_add_scalar(V a, D s) { return is(a + s, X(a) + s, Y(a) + s) && is(s + a, X(a) + s, Y(a) + s); }

inline bool law_sub_scalar(V a, D s) { return is(a - s, X(a) - s, Y(a) - s) && is(s - a, s - X(a), s - Y(a)); }

inline bool law_mul_scalar(V a, D s) { return is(a * s, X(a) * s, Y(a) * s) && is(s * a, X(a) * s, Y(a) * s); }

inline bool law_div_scalar(V a, D s) { return is(a / s, X(a) / s, Y(a) / s) && is(s / a, s / X(a), s / Y(a)); }

inline bool law_add_to(V a, V b) { Vec2<double> v { X(a), Y(a) }; v += b; return is(v, X(a) + X(b), Y(a) + Y(b)); }

inline bool law_sub_from(V a, V b) { Vec2<double> v { X(a), Y(a) }; v -= b; return is(v, X(a) - X(b), Y(a) - Y(b)); }

inline bool law_scale(V a, D s) { Vec2<double> v { X(a), Y(a) }; v *= s; return is(v, X(a) * s, Y(a) * s); }

inline bool law_shrink(V a, D s) { Vec2<double> v { X(a), Y(a) }; v /= s; return is(v, X(a) / s, Y(a) / s); }

inline bool law_mul_by(V a, V b) { Vec2<double> v { X(a), Y(a) }; v *= b; return is(v, X(a) * X(b), Y(a) * Y(b)); }

inline bool law_div_by(V a, V b) { Vec2<double> v { X(a), Y(a) }; v /= b; return is(v, X(a) / X(b), Y(a) / Y(b)); }

inline bool law_shift(V a, D s) { Vec2<double> v { X(a), Y(a) }; v += s; return is(v, X(a) + s, Y(a) + s); }

inline bool law_shift_back(V a, D s) { Vec2<double> v { X(a), Y(a) }; v -= s; return is(v, X(a) - s, Y(a) - s); }

inline bool law_write(V a, D s) { Vec2<double> v { X(a), Y(a) }; v.x = s; v[1] = s; return is(v, s, s); }

inline bool law_move(V a, V b) { Vec2<double> v { X(a), Y(a) }; v = b + a; return is(v, X(a) + X(b), Y(a) + Y(b)); }

inline bool law_default() { Vec2<double> v {}; return is(v, 0.0, 0.0); }

inline bool law_norm_sqr(V a) { return a.norm_sqr() == n2(a); }

inline bool law_norm(V a) { return a.norm() == std::sqrt(n2(a)); }

inline bool law_dot(V a, V b) { return dot(a, b) == X(a) * X(b) + Y(a) * Y(b) && a.dot(b) == X(a) * X(b) + Y(a) * Y(b); }

inline bool law_cross(V a, V b) { return cross(a, b) == X(a) * Y(b) - Y(a) * X(b) && a.cross(b) == X(a) * Y(b) - Y(a) * X(b); }

inline bool law_cross3(const Vec3<double>& a, const Vec3<double>& b)
{
  const Vec3<double> c = cross(a, b), d = a.cross(b);
  const D x = a.entries_[1] * b.entries_[2] - a.entries_[2] * b.entries_[1];
  const D y = a.entries_[2] * b.entries_[0] - a.entries_[0] * b.entries_[2];
  const D z = a.entries_[0] * b.entries_[1] - a.entries_[1] * b.entries_[0];
  return c.entries_[0] == x && c.entries_[1] == y && c.entries_[2] == z && d.entries_[0] == x && d.entries_[1] == y && d.entries_[2] == z;
}

inline bool law_angle(V a, V b)
{
  const D c = (X(a) * X(b) + Y(a) * Y(b)) / (std::sqrt(n2(a)) * std::sqrt(n2(b)));
  const D r = std::acos(c < -1.0 ? -1.0 : (c > 1.0 ? 1.0 : c));
  return angle(a, b) == r && a.angle(b) == r;
}

inline bool law_equal(V a, V b)
{
  const D d = (X(a) - X(b)) * (X(a) - X(b)) + (Y(a) - Y(b)) * (Y(a) - Y(b));
  const bool e = d <= std::numeric_limits<double>::epsilon() * d * 2;
  return (a == b) == e && (a != b) == !e;
}

inline bool law_abs(D a) { return ABS(a) == (a > 0.0 ? a : -a); }

inline bool law_min_max(D a, D b) { return MIN(a, b) == (a < b ? a : b) && MAX(a, b) == (a > b ? a : b); }

inline bool law_clamp(D a, D l, D h) { return l > h || CLAMP(a, l, h) == MAX(l, MIN(h, a)); }

inline bool law_mod(int n, int m) { const int r = n % m; return MOD(n, m) == (r < 0 ? r + m : r); }

inline bool law_pi(D x) { return x * CPPUTILS_PI == x * 3.14159265358979323846 && x * CPPUTILS_PI_HALF == x * 1.57079632679489661923; }

// equal up to the smallest normal number, or relative to the larger magnitude
inline bool close(D a, D b, D least, D rel)
{
  const D d = a - b > 0.0 ? a - b : -(a - b);
  if (d <= least) return true;
  const D x = a > 0.0 ? a : -a, y = b > 0.0 ? b : -b;
  return d <= (x > y ? x : y) * rel;
}
inline bool law_close(D a, D b) { return EQ(a, b) == close(a, b, std::numeric_limits<double>::min(), std::numeric_limits<double>::epsilon()); }

inline bool law_close_to(D a, D b, D e, D r) { return EQ(a, b, e, r) == close(a, b, e, r); }

inline bool law_zero(D a) { return EQ0(a) == close(a, 0.0, std::numeric_limits<double>::min(), std::numeric_limits<double>::epsilon()); }

inline bool law_near_zero(D a, D e, D r) { return EQ0(a, e, r) == close(a, 0.0, e, r); }

}}
