// Scalar mathematics: signs, cube roots, norms, approximate comparison, constants.
#include <cfloat>
#include <pbt.hpp>
#include <ecl/math.hpp>
#include <ecl/math/fuzzy.hpp>
namespace {
template <typename T> void signs(pbt::Ctx& c, T x, const char* t) {
  int e = x > 0 ? 1 : x < 0 ? -1 : 0;
  CHECK(ecl::sign(x) == e, t << " sign(" << +x << ")=" << ecl::sign(x));
  CHECK(ecl::psign(x) == (x >= 0 ? 1 : -1), t << " psign(" << +x << ")=" << ecl::psign(x));
  CHECK(ecl::nsign(x) == (x > 0 ? 1 : -1), t << " nsign(" << +x << ")=" << ecl::nsign(x));
  NOTE(t << " " << +x); c.nontrivial(x != 0); c.label(x == 0, "zero"); c.label(x < 0, "negative");
}
template <typename T> T anyreal(pbt::Src& s) {
  switch (s.below(5)) {
    case 0: return (T)s.real(1000); case 1: return (T)(s.coin() ? 0.0 : -0.0);
    case 2: { int e = (int)s.centred(-30, 30); return (T)((double)s.centred(-1000000, 1000000) * std::pow(10.0, e)); }
    case 3: { T v = std::numeric_limits<T>::denorm_min() * (T)s.range(1, 9); return s.coin() ? v : -v; }
    default: return (T)s.of<double>({1, -1, 8, 27, -27, 1e-9, -1e-9, 1e9, -1e30, 0.001, -0.125});
  }
}
}
PBT(math_signs, 2, "the value is not zero") {
  switch (s.below(8)) {
    case 0: signs<int>(c, s.integer<int>(), "int"); break; case 1: signs<short>(c, s.integer<short>(), "short"); break;
    case 2: signs<long long>(c, s.integer<long long>(), "long long"); break; case 3: signs<unsigned>(c, s.integer<unsigned>(), "unsigned"); break;
    case 4: signs<double>(c, anyreal<double>(s), "double"); break; case 5: signs<float>(c, anyreal<float>(s), "float"); break;
    case 6: signs<signed char>(c, s.integer<signed char>(), "signed char"); break; default: signs<long double>(c, anyreal<double>(s), "long double");
  }
}
namespace {
template <typename T> void root(pbt::Src& s, pbt::Ctx& c, const char* t, double eps) {
  T x = anyreal<T>(s); if (std::fabs(x) < std::numeric_limits<T>::min()) x = 0; T r = ecl::cube_root(x); NOTE(t << " cube_root(" << x << ")=" << r);
  double want = std::cbrt((double)x);
  CHECK(std::fabs((double)r - want) <= eps * std::fabs(want), t << " cube_root(" << x << ") = " << r << " expected " << want);
  CHECK((x > 0) == (r > 0) && (x < 0) == (r < 0), t << " cube_root(" << x << ") has the wrong sign: " << r);
  T y = -x; T ry = ecl::cube_root(y); CHECK(ry == -r || (r == 0 && ry == 0), "cube_root is odd: " << r << " vs " << ry);
  c.nontrivial(x != 0); c.label(x < 0, "negative");
}
template <typename T> void norms(pbt::Src& s, pbt::Ctx& c, const char* t, double eps) {
  T v[3]; double m = s.of<double>({1, 10, 1e6, 1e-3, 1e12}); for (T& x : v) x = (T)s.real(m);
  for (T& x : v) if (std::fabs(x) < 1e-12) x = 0;   // squares of smaller values underflow
  double w2 = std::sqrt((double)v[0] * v[0] + (double)v[1] * v[1]), w3 = std::sqrt((double)v[0] * v[0] + (double)v[1] * v[1] + (double)v[2] * v[2]);
  NOTE(t << " " << v[0] << " " << v[1] << " " << v[2]);
  ecl::EuclideanNorm n; auto near = [&](double a, double b) { return std::fabs(a - b) <= eps * b + 1e-300; };
  CHECK(near(n(v[0], v[1]), w2), t << " norm of (" << v[0] << "," << v[1] << ")=" << n(v[0], v[1]) << " expected " << w2);
  CHECK(near(n(v[0], v[1], v[2]), w3), t << " norm of (" << v[0] << "," << v[1] << "," << v[2] << ")=" << n(v[0], v[1], v[2]) << " expected " << w3);
  CHECK(near(ecl::euclidean_norm(v[0], v[1]), w2) && near(ecl::euclidean_norm(v[0], v[1], v[2]), w3), t << " euclidean_norm of (" << v[0] << "," << v[1] << "," << v[2] << ") expected " << w2 << " " << w3);
  CHECK(ecl::euclidean_norm(v[1], v[0]) == ecl::euclidean_norm(v[0], v[1]), "symmetry");
  c.nontrivial(v[0] != 0 && v[1] != 0 && v[2] != 0);
}
}
PBT(math_cube_root, 2, "the value is not zero") { if (s.coin(2, 3)) root<double>(s, c, "double", 1e-13); else root<float>(s, c, "float", 1e-5); }
PBT(math_norms, 2, "all three coordinates are nonzero") { if (s.coin(2, 3)) norms<double>(s, c, "double", 1e-14); else norms<float>(s, c, "float", 1e-6); }
namespace {
template <typename T> void approx_float(pbt::Src& s, pbt::Ctx& c, const char* t, double dummy, double eps) {
  T x = (T)s.real(s.of<double>({1, 100, 1e6})); double prec = s.of<double>({0, 1e-3, 0.01, 0.1, 0.5, 1e-5}); bool dflt = prec == 0; if (dflt) prec = dummy; 
  if (std::fabs(x) < 1e-6) x = 0;
  double r; switch (s.below(4)) { case 0: r = 0; break; case 1: r = prec * (double)s.centred(-400, 400) / 200.0; break; case 2: r = (double)s.centred(-1000, 1000) / 1000.0; break; default: r = prec * (1 + (double)s.centred(-50, 50) / 100.0); }
  T y = (T)(s.coin(1, 6) ? s.real(100) : (double)x * (1 + r)); if (s.coin(1, 8)) std::swap(x, y);
  double d = std::fabs((double)x - (double)y), lim = std::min(std::fabs((double)x), std::fabs((double)y)) * prec, slack = eps * std::max(std::fabs((double)x), std::fabs((double)y));
  bool got = dflt ? ecl::isApprox(x, y) : ecl::isApprox(x, y, (T)prec), le = dflt ? ecl::isApproxOrLessThan(x, y) : ecl::isApproxOrLessThan(x, y, (T)prec);
  NOTE(t << " isApprox(" << x << "," << y << "," << prec << (dflt ? " default" : "") << ")=" << got);
  CHECK(got == (dflt ? ecl::isApprox(y, x) : ecl::isApprox(y, x, (T)prec)), "not symmetric for " << x << " and " << y);
  if (x == y) CHECK(got, "not reflexive at " << x);
  if (std::fabs(d - lim) > slack + 1e-6 * lim) { CHECK(got == (d <= lim), t << " isApprox(" << x << "," << y << ") precision " << prec << " gives " << got); CHECK(le == (x <= y || d <= lim), t << " isApproxOrLessThan(" << x << "," << y << ") precision " << prec << " gives " << le); c.nontrivial(x != y); c.label(got, "approximate"); c.label(!got, "different"); }
  if (x <= y) CHECK(le, "isApproxOrLessThan(" << x << "," << y << ") with x<=y");
}
}
PBT(math_approx_float, 3, "the values differ and are not on the tolerance boundary") { if (s.coin(2, 3)) approx_float<double>(s, c, "double", 1e-12, 1e-15); else approx_float<float>(s, c, "float", 1e-5, 3e-7); }
PBT(math_approx_int, 2, "the values differ") {
  int x = (int)s.centred(-1000, 1000);
  if (s.coin()) { int y = s.coin() ? x : (int)s.centred(-1000, 1000); NOTE(x << " ~ " << y); CHECK(ecl::isApprox(x, y) == (x == y), "isApprox(" << x << "," << y << ")"); CHECK(ecl::isApproxOrLessThan(x, y) == (x <= y), "isApproxOrLessThan(" << x << "," << y << ")"); c.nontrivial(x != y); return; }
  bool dflt = s.coin(); double prec = dflt ? 1e-12 : s.of<double>({0.001, 0.01, 0.25}); double y = x * (1 + prec * (double)s.centred(-300, 300) / 100) + (s.coin(1, 3) ? (double)s.centred(-5, 5) / 10 : 0);
  double d = std::fabs(x - y), lim = std::min(std::fabs((double)x), std::fabs(y)) * (double)(float)prec; if (dflt) lim = std::min(std::fabs((double)x), std::fabs(y)) * 1e-12;
  bool got = dflt ? ecl::isApprox(x, y) : ecl::isApprox(x, y, (float)prec); NOTE(x << " ~ " << y << " prec " << prec << " " << got);
  if (std::fabs(d - lim) > 1e-6 * lim + 4e-16 * std::abs(x)) { CHECK(got == (d <= lim), "isApprox(int " << x << ", double " << y << ", " << (dflt ? "default" : "given") << " " << prec << ") gives " << got); c.nontrivial(y != x); }
  CHECK(ecl::isApproxOrLessThan(x, y) == (x <= y), "isApproxOrLessThan(int " << x << ", double " << y << ")");
  double z = x + (s.coin() ? 0 : s.real(2)); CHECK(ecl::isApproxOrLessThan(z, x) == (z <= x || std::fabs(z - x) <= std::min(std::fabs(z), std::fabs((double)x)) * 1e-12), "isApproxOrLessThan(double " << z << ", int " << x << ")");
}
PBT(math_constants, 1, "every case: one multiple of pi") {
  int k = (int)s.range(1, 16); double p = std::acos(-1.0); NOTE("multiple " << k);
  CHECK(ecl::pi == p && ecl::two_pi == 2 * p && ecl::pi_2 == p / 2 && ecl::pi_4 == p / 4, "constants");
  CHECK(ecl::pi_f == (float)p && ecl::two_pi_f == (float)(2 * p) && ecl::pi_2_f == (float)(p / 2) && ecl::pi_4_f == (float)(p / 4), "float constants");
  CHECK(std::fabs(std::sin(k * ecl::pi)) < 1e-14, "sin(k pi)"); c.nontrivial();
}
PBT_MAIN
