// Segments, angles and points against direct formulae.
#include <cmath>
#include <pbt.hpp>
#include <ecl/geometry/linear_segment.hpp>
#include <ecl/geometry/angle.hpp>
#include <ecl/geometry/cartesian_point.hpp>
#include <ecl/geometry/homogeneous_point.hpp>
#include <ecl/exceptions/standard_exception.hpp>
using namespace ecl;
namespace { const double PI = std::acos(-1.0); }
// ---------------- linear segments ----------------
namespace {
double coord(pbt::Src& s, double m) { return s.coin() ? (double)s.centred(-8, 8) : s.real(m); }
long double sq_dist(long double px, long double py, long double x1, long double y1, long double x2, long double y2) {
  long double dx = x2 - x1, dy = y2 - y1, l = dx * dx + dy * dy, t = l > 0 ? ((px - x1) * dx + (py - y1) * dy) / l : 0;
  if (t < 0) t = 0; if (t > 1) t = 1; long double ex = px - (x1 + t * dx), ey = py - (y1 + t * dy); return ex * ex + ey * ey;
}
}
PBT(segment_distance, 4, "the end points differ and the point is not on the segment") {
  double m = s.of<double>({10, 1000, 0.01, 1e5}); double x1 = coord(s, m), y1 = coord(s, m), x2 = coord(s, m), y2 = coord(s, m);
  if (s.coin(1, 8)) x2 = x1; if (s.coin(1, 8)) y2 = y1;
  double px, py; switch (s.below(4)) {
    case 0: px = coord(s, m); py = coord(s, m); break;
    case 1: { double t = (double)s.centred(-200, 300) / 100; px = x1 + t * (x2 - x1); py = y1 + t * (y2 - y1); break; }   // on the line
    case 2: { double t = (double)s.centred(-200, 300) / 100, w = coord(s, 4); px = x1 + t * (x2 - x1) - w * (y2 - y1); py = y1 + t * (y2 - y1) + w * (x2 - x1); break; }
    default: px = s.coin() ? x1 : x2; py = s.coin() ? y1 : y2; }
  LinearSegment seg(x1, y1, x2, y2); double got = seg.squaredDistanceFromPoint(px, py), want = (double)sq_dist(px, py, x1, y1, x2, y2);
  NOTE("(" << x1 << "," << y1 << ")-(" << x2 << "," << y2 << ") point (" << px << "," << py << ") d2=" << got);
  double scale = std::max({std::fabs(x1), std::fabs(y1), std::fabs(x2), std::fabs(y2), std::fabs(px), std::fabs(py), 1e-3}); double tol = 1e-12 * scale * scale + 1e-10 * want;
  CHECK(std::fabs(got - want) <= tol, "squared distance of (" << px << "," << py << ") from (" << x1 << "," << y1 << ")-(" << x2 << "," << y2 << ") is " << got << " expected " << want);
  double rev = LinearSegment(x2, y2, x1, y1).squaredDistanceFromPoint(px, py); CHECK(std::fabs(rev - want) <= tol, "reversing the segment gives " << rev << " not " << want);
  double d1 = (px - x1) * (px - x1) + (py - y1) * (py - y1), d2 = (px - x2) * (px - x2) + (py - y2) * (py - y2); CHECK(got <= std::min(d1, d2) + tol && got >= 0, "farther than an end point: " << got);
  c.nontrivial((x1 != x2 || y1 != y2) && want > tol); c.label(x1 == x2 && y1 == y2, "degenerate"); c.label(std::fabs(want - std::min(d1, d2)) <= tol, "nearest to an end"); c.label(want < std::min(d1, d2) - tol, "nearest to the interior");
}
PBT(segment_line, 2, "the end points differ") {
  double m = s.of<double>({10, 1000, 1}); double x1 = coord(s, m), y1 = coord(s, m), x2 = s.coin(1, 5) ? x1 : coord(s, m), y2 = coord(s, m); if (s.coin(1, 8)) y2 = y1; ASSUME(x1 != x2 || y1 != y2); if (x1 != x2 && std::fabs(x1 - x2) < 1e-3) x2 = x1 + 1;
  LinearSegment seg(x1, y1, x2, y2); double A = seg.A(), B = seg.B(), C = seg.C(); NOTE("(" << x1 << "," << y1 << ")-(" << x2 << "," << y2 << ") A=" << A << " B=" << B << " C=" << C);
  if (x1 == x2) { CHECK(A == 1 && B == 0 && C == x1, "a vertical segment is described by x = C: A=" << A << " B=" << B << " C=" << C << " at x=" << x1); }
  else for (double t : {0.0, 1.0, 0.5, -1.0}) { double x = x1 + t * (x2 - x1), y = y1 + t * (y2 - y1), r = A * x + B * y + C; CHECK(B == 1 && std::fabs(r) <= 1e-9 * (1 + std::fabs(A * x) + std::fabs(y) + std::fabs(A * x1) + std::fabs(C)), "A x + B y + C = " << r << " at (" << x << "," << y << "), A=" << A << " C=" << C); }
  c.nontrivial(); c.label(x1 == x2, "vertical"); c.label(y1 == y2, "horizontal");
}
// ---------------- angles ----------------
namespace {
template <typename T> struct Tol { static T eps() { return std::numeric_limits<T>::epsilon(); } };
// distance of two angles on the circle
double circ(long double a, long double b) { return (double)std::fabs(std::remainder(a - b, 2 * std::acos(-1.0L))); }
template <typename T> T gen_angle(pbt::Src& s, double m) {
  switch (s.below(5)) { case 0: return (T)s.real(m); case 1: return (T)((double)s.centred(-40, 40) * PI / 4); case 2: return (T)((double)s.centred(-9, 9) * PI + s.real(1e-3)); case 3: return (T)s.real(4); default: { T v = (T)(s.coin() ? PI : -PI); if (s.coin()) v = std::nextafter(v, (T)(s.coin() ? 10 : -10)); return v; } }
}
template <typename T> bool in_range(T a) { return std::fabs((double)a) <= PI + (sizeof(T) == 4 ? 1e-6 : 1e-14); }
template <typename T> void wrap(pbt::Src& s, pbt::Ctx& c, const char* t) {
  T a = gen_angle<T>(s, s.of<double>({7, 50, 1000, 1e5})); T b = a; const T& r1 = wrap_angle(b); const T ca = a; T r2 = wrap_angle(ca);
  double tol = std::numeric_limits<T>::epsilon() * 4 * (std::fabs((double)a) + 4); NOTE(t << " wrap_angle(" << a << ")=" << r2);
  CHECK(&r1 == &b, "the in-place version must return its argument"); 
  CHECK(b == r2 || circ(b, r2) <= tol, t << " in-place " << b << " and copying " << r2 << " versions differ for " << a);
  CHECK(in_range(r2) && in_range(b), t << " wrap_angle(" << a << ") = " << r2 << " lies outside [-pi,pi]");
  CHECK(circ(r2, a) <= tol, t << " wrap_angle(" << a << ") = " << r2 << " is another direction");
  if (std::fabs((double)a) <= PI) CHECK(r2 == a && b == a, t << " an angle already in range was changed: " << a << " -> " << r2);
  c.nontrivial(std::fabs((double)a) > PI); c.label(a < -PI, "below -pi"); c.label(a > PI, "above pi");
}
template <typename T> void ops(pbt::Src& s, pbt::Ctx& c, const char* t) {
  T v0 = gen_angle<T>(s, 20); Angle<T> a(v0); long double ref = v0; double err = std::numeric_limits<T>::epsilon() * 8 * (std::fabs((double)v0) + 4); int n = s.len(1, 12); NOTE(t << " start " << v0); bool wrapped = std::fabs((double)v0) > PI;
  for (int i = 0; i < n; ++i) {
    T x = gen_angle<T>(s, 20); double e = std::numeric_limits<T>::epsilon() * 8 * (std::fabs((double)x) + 8); long double before = (long double)(T)a; int k = (int)s.below(11); T f = (T)((double)s.centred(-30, 30) / 10);
    switch (k) {
      case 0: a += x; ref += x; break; case 1: a -= x; ref -= x; break; case 2: a = a + x; ref += x; break; case 3: a = a - x; ref -= x; break;
      case 4: a += Angle<T>(x); ref += x; break; case 5: a -= Angle<T>(x); ref -= x; break; case 6: a = a + Angle<T>(x); ref += x; break; case 7: a = a - Angle<T>(x); ref -= x; break;
      case 8: a = x; ref = x; err = 0; break;
      case 9: a *= f; ref = before * f; err = 0; e = std::numeric_limits<T>::epsilon() * 40; break; default: a = a * f; ref = before * f; err = 0; e = std::numeric_limits<T>::epsilon() * 40; }
    err += e; NOTE("op " << k << " operand " << (k >= 9 ? f : x) << " -> " << (T)a); if (std::fabs((double)ref) > PI) wrapped = true;
    CHECK(in_range((T)a), t << " the angle left [-pi,pi]: " << (T)a << " after op " << k);
    CHECK(circ((long double)(T)a, ref) <= err, t << " op " << k << " gives " << (T)a << " expected direction " << (double)ref << " (tolerance " << err << ")");
    ref = (T)a; err = 0;
  }
  double tol = std::numeric_limits<T>::epsilon() * 200; CHECK(std::fabs((double)a.degrees() - (double)(T)a * 180 / PI) <= tol * 180, "degrees() of " << (T)a << " is " << a.degrees());
  typename Angle<T>::RotationMatrix R = a.rotationMatrix(); double th = (T)a; CHECK(std::fabs(R(0, 0) - std::cos(th)) < tol && std::fabs(R(0, 1) + std::sin(th)) < tol && std::fabs(R(1, 0) - std::sin(th)) < tol && std::fabs(R(1, 1) - std::cos(th)) < tol, "rotation matrix of " << th);
  Angle<T> back(R); CHECK(circ((T)back, (T)a) <= tol, "angle of the rotation matrix of " << (T)a << " is " << (T)back);
  T dg = (T)s.centred(-1000, 1000); T rd = degrees_to_radians(dg); CHECK(std::fabs((double)rd - (double)dg * PI / 180) <= std::numeric_limits<T>::epsilon() * 4 * std::fabs((double)rd), "degrees_to_radians(" << dg << ")=" << rd); CHECK(std::fabs((double)radians_to_degrees(rd) - (double)dg) <= std::numeric_limits<T>::epsilon() * 8 * std::fabs((double)dg), "radians_to_degrees(degrees_to_radians(" << dg << "))=" << radians_to_degrees(rd));
  Angle<T> d = Angle<T>::Degrees(dg), r = Angle<T>::Radians(rd); CHECK(circ((T)d, rd) <= std::numeric_limits<T>::epsilon() * 40 * (1 + std::fabs((double)rd)) && in_range((T)d) && (T)d == (T)r, "Degrees(" << dg << ") = " << (T)d << " Radians = " << (T)r);
  c.nontrivial(wrapped); c.label(wrapped, "wrapped");
}
}
PBT(angle_wrap, 2, "the angle lies outside [-pi,pi]") { if (s.coin(2, 3)) wrap<double>(s, c, "double"); else wrap<float>(s, c, "float"); }
PBT(angle_ops, 3, "some intermediate sum leaves [-pi,pi]") { if (s.coin(2, 3)) ops<double>(s, c, "double"); else ops<float>(s, c, "float"); }
// ---------------- points ----------------
namespace {
template <typename T> bool near(T a, double b, double scale = 1) { return std::fabs((double)a - b) <= std::numeric_limits<T>::epsilon() * 16 * (std::fabs(b) + scale); }
template <typename T> void point2(pbt::Src& s, pbt::Ctx& c) {
  typedef CartesianPoint<T, 2> P; double m = s.of<double>({10, 1, 1000}); double x = (T)coord(s, m), y = (T)coord(s, m), u = (T)coord(s, m), v = (T)coord(s, m); P p((T)x, (T)y), q((T)u, (T)v); int n = s.len(1, 10); NOTE("p (" << x << "," << y << ") q (" << u << "," << v << ")");
  double sc = std::max({std::fabs(x), std::fabs(y), std::fabs(u), std::fabs(v), 1.0});
  for (int i = 0; i < n; ++i) {
    int k = (int)s.below(15); double a = s.real(7); NOTE("op " << k << " " << a);
    switch (k) {
      case 0: { p.rotate(a); double nx = x * std::cos(a) - y * std::sin(a), ny = x * std::sin(a) + y * std::cos(a); x = nx; y = ny; break; }
      case 1: { T mag = p.Normalize(); double w = std::sqrt(x * x + y * y); if (x * x + y * y != 0 && w < 1e-15) throw pbt::Discard(); CHECK(near(mag, w, sc), "Normalize returned " << mag << " expected " << w); if (w == 0) { x = 1; y = 0; } else { x /= w; y /= w; } sc = std::max({std::fabs(u), std::fabs(v), 1.0}) ; if (w != 0 && w < 1e-3) { x = p.x(); y = p.y(); } break; }
      case 2: p += q; x += u; y += v; break;
      case 3: p = p + q; x += u; y += v; break;
      case 4: p = p - q; x -= u; y -= v; break;
      case 5: p = p * a; x *= a; y *= a; break;
      case 6: { T d = p.distance(q); CHECK(near(d, std::hypot(x - u, y - v), sc), "distance " << d << " expected " << std::hypot(x - u, y - v)); break; }
      case 7: CHECK(near((T)p.Norm(), std::hypot(x, y), sc), "Norm " << p.Norm() << " expected " << std::hypot(x, y)); break;
      case 8: if (std::hypot(x, y) > 0.1) { double g = p.get_angle(); CHECK(circ(g, std::atan2(y, x)) < std::numeric_limits<T>::epsilon() * 200 * sc, "get_angle " << g << " of (" << x << "," << y << ")"); } break;
      case 9: { P r(p); const T px = p[0]; CHECK(r == p && !(r != p), "a copy must equal the original"); r.x(r.x() > 0 ? -1 : 1); CHECK(r != p && !(r == p), "differs in x"); P w(p); w.y(w.y() > 0 ? -1 : 1); CHECK(w != p && !(w == p), "differs in y"); CHECK(p[0] == px, "copies are independent"); break; }
      case 10: { T z = (T)s.real(m); if (s.coin()) { p.x(z); x = z; } else { p[1] = z; y = z; } break; }
      case 11: std::swap(x, u), std::swap(y, v), std::swap(p, q); break;
      case 12: p << (T)a, (T)(a + 1); x = (T)a; y = (T)(a + 1); break;
      case 13: { ecl::linear_algebra::Matrix<T, 2, 1> w; w << (T)a, (T)-a; p = P(w); x = (T)a; y = -(T)a; break; }
      default: { P f((T)a); CHECK(f.x() == (T)a && f.y() == (T)a && f.size() == 2, "fill constructor"); break; }
    }
    sc = std::max({sc, std::fabs(x), std::fabs(y)}); if (sc > 1e9) throw pbt::Discard();
    const P& cp = p; CHECK(near(cp.x(), x, sc) && near(cp.y(), y, sc) && cp.x() == cp[0] && p[1] == p.y() && cp.positionVector()[0] == cp.x() && p.positionVector()[1] == cp.y(), "after op " << k << " the point is (" << cp.x() << "," << cp.y() << ") expected (" << x << "," << y << ")");
    x = cp.x(); y = cp.y(); CHECK(q.x() == (T)u && q.y() == (T)v, "an operand changed");
  }
  std::ostringstream o; o << p; std::ostringstream e; e << "[ " << p.x() << " " << p.y() << " ]"; CHECK(o.str() == e.str(), "printed " << o.str()); c.nontrivial(x != 0 || y != 0);
}
template <typename T> void point3(pbt::Src& s, pbt::Ctx& c) {
  T x = (T)coord(s, 100), y = (T)coord(s, 100), z = (T)coord(s, 100); CartesianPoint<T, 3> p(x, y, z); NOTE("(" << x << "," << y << "," << z << ")"); int n = s.len(0, 6);
  for (int i = 0; i < n; ++i) switch (s.below(6)) { case 0: x = (T)coord(s, 50); p.x(x); break; case 1: y = (T)coord(s, 50); p.y(y); break; case 2: z = (T)coord(s, 50); p.z(z); break; case 3: { ecl::linear_algebra::Matrix<T, 3, 1> w; w << z, x, y; p = CartesianPoint<T, 3>(w); T t = x; x = z; z = y; y = t; break; } case 4: p << y, z, x; { T t = x; x = y; y = z; z = t; } break; default: { CartesianPoint<T, 3> q(p); q.x(q.x() + 1); CHECK(p.x() == x, "copies are independent"); q = p; CHECK(q.z() == z, "assignment"); } }
  const CartesianPoint<T, 3>& cp = p; CHECK(cp.x() == x && cp.y() == y && cp.z() == z && p.x() == x && p.y() == y && p.z() == z && p.size() == 3, "the point is (" << cp.x() << "," << cp.y() << "," << cp.z() << ") expected (" << x << "," << y << "," << z << ")");
  CHECK(cp.positionVector()[0] == x && p.positionVector()[1] == y && cp.positionVector()[2] == z, "position vector"); std::ostringstream o, e; o << p; e << "[ " << x << " " << y << " " << z << " ]"; CHECK(o.str() == e.str(), "printed " << o.str()); CartesianPoint<T, 3> f(x); CHECK(f.x() == x && f.y() == x && f.z() == x, "fill"); c.nontrivial(x != y && y != z);
}
template <typename T, unsigned N> void pointn(pbt::Src& s, pbt::Ctx& c) {
  CartesianPoint<T, N> p((T)3); T ref[N]; for (unsigned i = 0; i < N; ++i) { CHECK(p[i] == (T)3, "fill"); ref[i] = 3; } int n = s.len(1, 8);
  for (int i = 0; i < n; ++i) { unsigned k = (unsigned)s.below(N); T v = (T)coord(s, 50); p[k] = v; ref[k] = v; const CartesianPoint<T, N>& cp = p; for (unsigned j = 0; j < N; ++j) CHECK(cp[j] == ref[j] && cp.positionVector()[j] == ref[j], "element " << j); NOTE("p[" << k << "]=" << v); }
#ifndef NDEBUG
  bool threw = false; try { p[N + (unsigned)s.below(3)] = 1; } catch (StandardException& e) { threw = e.flag() == OutOfRangeError; } CHECK(threw, "an index outside the point must be refused in debug builds");
#endif
  c.nontrivial();
}
template <typename T> void homogeneous(pbt::Src& s, pbt::Ctx& c) {
  typedef HomogeneousPoint<T> H; T x = (T)coord(s, 100), y = (T)coord(s, 100), z = (T)coord(s, 100); H h(x, y, z); 
  auto same = [&](const H& g, T a, T b, T d, const char* w) { CHECK(g.x() == a && g.y() == b && g.z() == d && g.positionVector()[3] == (T)1, w << ": (" << g.x() << "," << g.y() << "," << g.z() << "," << g.positionVector()[3] << ") expected (" << a << "," << b << "," << d << ",1)"); };
  same(h, x, y, z, "from coordinates"); ecl::linear_algebra::Matrix<T, 3, 1> w3; w3 << z, y, x; same(H(w3), z, y, x, "from a 3-vector"); ecl::linear_algebra::Matrix<T, 4, 1> w4; w4 << y, x, z, 1; same(H(w4), y, x, z, "from a 4-vector"); same(H(x), x, x, x, "filled"); H d; same(d, 0, 0, 0, "default");
  h.x(y); h.y(z); h.z(x); same(h, y, z, x, "setters"); h << x, z, y, (T)1; same(h, x, z, y, "comma"); h = w4; same(h, y, x, z, "assigned"); std::ostringstream o, e; o << h; e << "[ " << y << " " << x << " " << z << " ]"; CHECK(o.str() == e.str(), "printed " << o.str());
#ifndef NDEBUG
  T w = (T)s.of<double>({0, 2, -1, 0.5}); w4[3] = w; bool threw = false; try { H bad(w4); } catch (StandardException& ex) { threw = ex.flag() == InvalidInputError; } CHECK(threw, "a fourth element of " << w << " must be refused in debug builds");
#endif
  NOTE("(" << x << "," << y << "," << z << ")"); c.nontrivial(x != y && y != z);
}
}
namespace {
// one operation at any magnitude: nothing hides behind the sizes of other coordinates
template <typename T> void point_scale(pbt::Src& s, pbt::Ctx& c) {
  typedef CartesianPoint<T, 2> P; int lim = sizeof(T) == 8 ? 140 : 17; auto co = [&]() -> T { if (s.coin(1, 6)) return (T)0; return (T)((s.coin() ? -1 : 1) * (double)s.range(1, 1000000) * std::pow(10.0, (double)s.range(-lim, lim - 6))); };
  T x = co(), y = co(); P p(x, y); T u = co(), v = co(); int rel = (int)s.below(4);
  if (rel == 0) { u = std::nextafter(x, (T)(s.coin() ? 1e30 : -1e30)); v = y; } else if (rel == 1) { u = x; v = std::nextafter(y, (T)(s.coin() ? 1e30 : -1e30)); } else if (rel == 2) { u = x; v = y; } P q(u, v);
  NOTE("(" << x << "," << y << ") and (" << u << "," << v << ")"); bool same = x == u && y == v; CHECK((p == q) == same && (q == p) == same && (p != q) == !same && (q != p) == !same, "(" << x << "," << y << ") and (" << u << "," << v << ") compare " << (p == q ? "equal" : "different"));
  P a = p + q, d = p - q; CHECK(a.x() == (T)(x + u) && a.y() == (T)(y + v) && d.x() == (T)(x - u) && d.y() == (T)(y - v), "sum (" << a.x() << "," << a.y() << ") difference (" << d.x() << "," << d.y() << ")"); P e(p); e += q; CHECK(e == a, "+= differs from +"); e = p; e += e; CHECK(e.x() == x + x && e.y() == y + y, "p += p"); P z = p - p; CHECK(z.x() == 0 && z.y() == 0, "p - p");
  if (x != 0 || y != 0) { bool fits = true; for (T w : {x, y}) if (w != 0 && std::fabs(std::log10(std::fabs((double)w))) > (sizeof(T) == 8 ? 140 : 17)) fits = false; if (fits) { P n(p); T mag = n.Normalize(); double h = std::hypot((double)x, (double)y), t = std::numeric_limits<T>::epsilon() * 16; CHECK(std::fabs((double)mag - h) <= t * h && std::fabs((double)p.Norm() - h) <= t * h, "the norm is " << mag << ", " << p.Norm() << " expected " << h); CHECK(std::fabs(n.x() - x / h) <= t && std::fabs(n.y() - y / h) <= t, "normalised to (" << n.x() << "," << n.y() << ")"); } }
  else { P n(p); CHECK(n.Normalize() == 0 && n.x() == 1 && n.y() == 0, "the normalised origin is (" << n.x() << "," << n.y() << ")"); }
  c.nontrivial(rel < 2); c.label(same, "equal");
}
}
PBT(point_scale, 2, "the points are neighbours") { if (s.coin(2, 3)) point_scale<double>(s, c); else point_scale<float>(s, c); }
PBT(point_planar, 4, "the point does not end at the origin") { if (s.coin(2, 3)) point2<double>(s, c); else point2<float>(s, c); }
PBT(point_spatial, 1, "coordinates differ") { switch (s.below(3)) { case 0: point3<double>(s, c); break; case 1: point3<float>(s, c); break; default: point3<int>(s, c); } }
PBT(point_any, 1, "every case: element writes and reads") { switch (s.below(3)) { case 0: pointn<double, 4>(s, c); break; case 1: pointn<int, 5>(s, c); break; default: pointn<float, 1>(s, c); } }
PBT(point_homogeneous, 1, "coordinates differ") { if (s.coin()) homogeneous<double>(s, c); else homogeneous<float>(s, c); }
PBT_MAIN
