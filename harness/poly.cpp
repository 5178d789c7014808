// Polynomials: algebra, roots, extrema, intersections and interpolation blueprints against long double formulae.
#include <algorithm>
#include <cmath>
#include <pbt.hpp>
#include <ecl/geometry/polynomial.hpp>
#include <ecl/geometry/pascals_triangle.hpp>
#include <ecl/exceptions/standard_exception.hpp>
using namespace ecl;
typedef long double LD;
namespace {
std::vector<LD> eval_d(const std::vector<LD>& c) { std::vector<LD> r; for (size_t i = 1; i < c.size(); ++i) r.push_back(c[i] * (LD)i); if (r.empty()) r.push_back(0); return r; }
LD ev(const std::vector<LD>& c, LD x) { LD v = 0; for (size_t i = c.size(); i-- > 0;) v = v * x + c[i]; return v; }
LD mag(const std::vector<LD>& c, LD x) { LD v = 0; x = std::fabs(x); for (size_t i = c.size(); i-- > 0;) v = v * x + std::fabs(c[i]); return v; }
template <unsigned int N> std::vector<LD> coefs(const Polynomial<N>& p) { std::vector<LD> r; for (unsigned i = 0; i <= N; ++i) r.push_back(p.coefficients()[i]); return r; }
double coef(pbt::Src& s) { switch (s.below(5)) { case 0: return 0; case 1: case 2: return (double)s.centred(-9, 9); case 3: return s.real(10); default: return s.real(1000); } }
double arg(pbt::Src& s) { switch (s.below(4)) { case 0: return (double)s.centred(-3, 3); case 1: return s.real(1); default: return s.real(8); } }
template <unsigned int N> Polynomial<N> gen(pbt::Src& s) { Polynomial<N> p; for (unsigned i = 0; i <= N; ++i) p.coefficients()[i] = coef(s); return p; }
std::string show(const std::vector<LD>& c) { std::ostringstream o; o.precision(17); o << "["; for (size_t i = 0; i < c.size(); ++i) o << (i ? " " : "") << (double)c[i]; o << "]"; return o.str(); }
void near(const char* what, double got, LD want, LD tol, const std::vector<LD>& k, double x) { if (!(std::fabs((LD)got - want) <= tol)) FAIL(what << " of " << show(k) << " at " << x << " is " << got << ", expected " << (double)want); }

template <unsigned int N> void eval_case(pbt::Src& s, pbt::Ctx& c) {
  Polynomial<N> zero; for (unsigned i = 0; i <= N; ++i) CHECK(zero.coefficients()[i] == 0.0, "a new polynomial has coefficient " << i << " = " << zero.coefficients()[i]);
  Polynomial<N> p = gen<N>(s); const Polynomial<N>& cp = p; double x = arg(s); auto k = coefs(p), d = eval_d(k), dd = eval_d(d); LD e = 1e-14L * (N + 2);
  NOTE("degree " << N << " " << show(k) << " x=" << x << " p(x)=" << cp(x));
  near("value", cp(x), ev(k, x), e * mag(k, x) + 1e-300L, k, x);
  near("derivative", cp.derivative(x), ev(d, x), e * mag(d, x) + 1e-300L, k, x);
  near("second derivative", cp.dderivative(x), ev(dd, x), e * mag(dd, x) + 1e-300L, k, x);
  auto dp = cp.derivative(); near("derivative polynomial", dp(x), ev(d, x), e * mag(d, x) + 1e-300L, k, x);
  for (unsigned i = 0; i + 1 <= N; ++i) near("derivative coefficient", dp.coefficients()[i], d[i], 1e-15L * std::fabs(d[i]), k, i);
  // shifting moves the graph to the right by the given amount
  double h = arg(s); Polynomial<N> q = p; q.shift_horizontal(h); LD tol = 0; { LD b = std::fabs((LD)x) + std::fabs((LD)h) + 1e-30L; tol = mag(k, 2 * b) * 1e-13L + 1e-300L; }
  near("polynomial shifted right", q((double)x), ev(k, (LD)x - h), tol, k, x); near("value after shifting a copy", cp(x), ev(k, x), e * mag(k, x) + 1e-300L, k, x);
  Polynomial<N> back = q; back.shift_horizontal(-h); near("shift and unshift", back(x), ev(k, x), 8 * tol * std::pow((LD)4, (int)N), k, x);
  c.nontrivial(x != 0 && h != 0 && std::any_of(k.begin() + 1, k.end(), [](LD v) { return v != 0; })); c.label(h < 0, "shift left");
}
}
PBT(poly_eval, 4, "argument and shift are not zero and some coefficient above the constant is not zero") {
  switch (s.below(7)) { case 0: eval_case<1>(s, c); break; case 1: eval_case<2>(s, c); break; case 2: case 3: eval_case<3>(s, c); break; case 4: eval_case<4>(s, c); break; case 5: eval_case<5>(s, c); break; default: eval_case<7>(s, c); }
}
PBT(poly_constant, 1, "the constant is not zero") {
  Polynomial<0> p; CHECK(p.coefficients()[0] == 0 && p(3) == 0, "a new constant"); double v = coef(s), x = arg(s); p.coefficients()[0] = v; p.shift_horizontal(x); const Polynomial<0>& q = p;
  CHECK(q(x) == v && q.derivative(x) == 0 && q.dderivative(x) == 0 && q.derivative()(x) == 0 && q.coefficients()[0] == v, "constant " << v << " at " << x << ": " << q(x)); c.nontrivial(v != 0);
}
// ---------------- Pascal's triangle ----------------
namespace {
long long binom(int n, int k) { long long r = 1; for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i; return r; }
template <int N> void pascal_case(pbt::Src& s, pbt::Ctx& c) {
  PascalsTriangle<N> t; unsigned i = (unsigned)s.range(0, N); std::vector<int> row; for (typename PascalsTriangle<N>::const_iterator it = t.begin(i); it != t.end(i); ++it) { row.push_back(*it); if (row.size() > 50) break; }
  NOTE("size " << N << " row " << i << " has " << row.size() << " entries"); CHECK(row.size() == N + 1 - i, "row " << i << " of size " << N << " has " << row.size() << " entries");
  for (size_t j = 0; j < row.size(); ++j) CHECK(row[j] == binom(i + (int)j, (int)j), "size " << N << " row " << i << " entry " << j << " is " << row[j] << " not " << binom(i + (int)j, (int)j));
  CHECK(*t.begin() == 1 && t.begin() == t.begin(0), "first row");
  std::ostringstream o; o << t; std::istringstream is(o.str()); std::string line; unsigned r = 0; while (std::getline(is, line)) { if (line.find_first_not_of(' ') == std::string::npos) continue; std::istringstream ls(line); long long v; unsigned j = 0; while (ls >> v) { CHECK(r <= (unsigned)N && v == binom(r + j, j), "printed row " << r << " entry " << j << " is " << v << " in\n" << o.str()); ++j; } CHECK(j == N + 1 - r, "printed row " << r << " has " << j << " entries\n" << o.str()); ++r; }
  CHECK(r == N + 1, "printed " << r << " rows"); c.nontrivial(i > 0);
}
}
PBT(poly_pascal, 1, "not the row of ones") { switch (s.below(7)) { case 0: pascal_case<1>(s, c); break; case 1: pascal_case<2>(s, c); break; case 2: pascal_case<3>(s, c); break; case 3: pascal_case<4>(s, c); break; case 4: pascal_case<5>(s, c); break; case 5: pascal_case<6>(s, c); break; default: pascal_case<9>(s, c); } }
// ---------------- division ----------------
PBT(poly_division, 2, "factor, leading coefficient and remainder are not zero") {
  double f = arg(s), rem = 12345; std::vector<LD> k, q; bool cubic = s.coin();
  if (cubic) { CubicPolynomial p = gen<3>(s); k = coefs(p); q = coefs(s.coin() ? Division<CubicPolynomial>()(p, f, rem) : CubicPolynomial::Division(p, f, rem)); }
  else { QuadraticPolynomial p = gen<2>(s); k = coefs(p); q = coefs(s.coin() ? Division<QuadraticPolynomial>()(p, f, rem) : QuadraticPolynomial::Division(p, f, rem)); }
  NOTE(show(k) << " / (x - " << f << ") = " << show(q) << " remainder " << rem); LD tol = 1e-13L * mag(k, std::max<LD>(std::fabs((LD)f), 1)) + 1e-300L;
  CHECK(q.size() + 1 == k.size(), "quotient degree"); std::vector<LD> prod(k.size(), 0); for (size_t i = 0; i < q.size(); ++i) { prod[i + 1] += q[i]; prod[i] -= q[i] * f; } prod[0] += rem;
  for (size_t i = 0; i < k.size(); ++i) CHECK(std::fabs(prod[i] - k[i]) <= tol, "quotient " << show(q) << " * (x - " << f << ") + " << rem << " is not " << show(k));
  CHECK(std::fabs(rem - ev(k, f)) <= tol, "remainder " << rem << " is not p(" << f << ")=" << (double)ev(k, f)); c.nontrivial(f != 0 && k.back() != 0 && rem != 0);
}
// ---------------- roots ----------------
namespace {
std::vector<double> listof(const Array<double>& a) { std::vector<double> r; for (unsigned i = 0; i < a.size(); ++i) r.push_back(a[i]); return r; }
double root_value(pbt::Src& s) { switch (s.below(4)) { case 0: case 1: return (double)s.centred(-12, 12); case 2: return (double)s.centred(-40, 40) / 4; default: return s.real(20); } }
double lead(pbt::Src& s) { double a = s.coin() ? s.of<double>({1, -1, 2, 0.5, -3}) : s.real(50); if (std::fabs(a) < 0.01) a = 1; return a; }
std::string showv(const std::vector<double>& v) { std::ostringstream o; o.precision(17); o << "{"; for (double x : v) o << x << " "; o << "}"; return o.str(); }
// every expected simple root is found, nothing is found that is not a root
void match(const std::vector<LD>& k, const std::vector<double>& got, std::vector<LD> want, LD tol) {
  for (double g : got) { CHECK(std::isfinite(g), "a root of " << show(k) << " is not a number: " << showv(got)); bool ok = false; for (LD w : want) if (std::fabs(w - g) <= tol) ok = true; CHECK(ok, "reported root " << g << " of " << show(k) << " is none of its " << want.size() << " roots"); }
  for (LD w : want) { bool ok = false; for (double g : got) if (std::fabs(w - g) <= tol) ok = true; CHECK(ok, "root " << (double)w << " of " << show(k) << " is missing from " << showv(got)); }
}
}
PBT(poly_roots, 4, "at least two roots expected, or the leading coefficient vanishes") {
  unsigned deg = 1 + (unsigned)s.below(3); std::vector<LD> want; LD tol = 1e-7L; std::vector<double> got; std::vector<LD> k; bool vanish = false, exact = true;
  auto coeffs2 = [](double a, double b, double cc) { QuadraticPolynomial p; p.coefficients() << cc, b, a; return p; };
  if (deg == 1) {
    LinearFunction f; double a = s.coin(1, 6) ? 0 : lead(s), b = coef(s); f.coefficients() << b, a; k = coefs(f); if (a != 0) want.push_back(-(LD)b / a); vanish = a == 0; tol = 1e-13L * (1 + std::fabs((LD)b / (a ? a : 1))); got = listof(s.coin() ? Roots<LinearFunction>()(f) : LinearFunction::Roots(f));
  } else if (deg == 2) {
    QuadraticPolynomial p; bool tiny = false; switch (s.below(5)) {
      case 0: { double a = lead(s), r = root_value(s), q = root_value(s); if (std::fabs(r - q) < 0.05) q = r + 1; p = coeffs2(a, -a * (r + q), a * r * q); want = {r, q}; break; }
      case 1: { double a = s.of<double>({1, -1, 2, 4, -0.5}), r = (double)s.centred(-40, 40) / 4; p = coeffs2(a, -2 * a * r, a * r * r); want = {r}; break; }                        // double root, exact arithmetic
      case 2: { double a = lead(s), r = root_value(s), w = 0.1 + std::fabs(root_value(s)); p = coeffs2(a, -2 * a * r, a * (r * r + w * w)); break; }                               // no real root
      case 3: { double b = lead(s), cc = coef(s), a = (s.coin() ? 1 : -1) * std::pow(10.0, -(double)s.range(9, 18)); p = coeffs2(a, b, cc); tiny = true; LD D = std::sqrt((LD)b * b - 4 * (LD)a * cc), q = -((LD)b + (b > 0 ? D : -D)) / 2; want = {q / a, cc / q}; break; }                                    // almost a line
      default: { double b = s.coin(1, 6) ? 0 : lead(s), cc = coef(s); p = coeffs2(0, b, cc); if (b != 0) want = {-(LD)cc / b}; vanish = true; tol = 1e-13L * (1 + std::fabs((LD)cc / (b ? b : 1))); } }
    k = coefs(p); got = listof(s.coin() ? Roots<QuadraticPolynomial>()(p) : QuadraticPolynomial::Roots(p));
    if (tiny) { NOTE(show(k) << " -> " << showv(got)); CHECK(got.size() == 2, "two roots expected of " << show(k) << ": " << showv(got)); for (LD w : want) { bool ok = false; for (double g : got) if (std::fabs(g - w) <= 1e-9L * std::fabs(w)) ok = true; CHECK(ok, "root " << (double)w << " of " << show(k) << " is missing from " << showv(got)); } c.nontrivial(); c.label("tiny leading coefficient"); return; }
  } else {
    CubicPolynomial p; switch (s.below(7)) {
      case 0: case 1: { double a = lead(s), r = root_value(s), q = root_value(s), t = root_value(s); if (std::fabs(r - q) < 0.05) q = r + 1; for (int g = 0; g < 3; ++g) if (std::fabs(t - r) < 0.05 || std::fabs(t - q) < 0.05) t = std::max(r, q) + 1 + g; p.coefficients() << -a * r * q * t, a * (r * q + r * t + q * t), -a * (r + q + t), a; want = {r, q, t}; tol = 1e-5L; break; }
      case 2: { double a = lead(s), r = root_value(s), m = root_value(s), w = 0.2 + std::fabs(root_value(s)); LD n2 = (LD)m * m + (LD)w * w; p.coefficients() << (double)(-a * r * n2), (double)(a * (n2 + 2 * (LD)m * r)), (double)(-a * (2 * (LD)m + r)), a; want = {r}; tol = 1e-5L; break; }          // one real root
      case 3: { double a = s.of<double>({1, -1, 2, 0.5}), d = (double)s.centred(-30, 30), e = (double)s.centred(-30, 30); p.coefficients() << d, e, 0, a;                                                     // no quadratic term: e, d of either sign or zero
        LD pp = (LD)e / a, qq = (LD)d / a, D = pp * pp * pp / 27 + qq * qq / 4; ASSUME(std::fabs(D) > 1e-3L || (pp == 0 && qq == 0) || D == 0); if (pp == 0 && qq == 0) want = {0}; else if (D == 0) want = {3 * qq / pp, -1.5L * qq / pp}; else if (D > 0) want = {std::cbrt(-qq / 2 + std::sqrt(D)) + std::cbrt(-qq / 2 - std::sqrt(D))}; else { LD m = 2 * std::sqrt(-pp / 3), ac = std::acos(std::max<LD>(-1, std::min<LD>(1, 3 * qq / (pp * m)))); for (int j = 0; j < 3; ++j) want.push_back(m * std::cos(ac / 3 - 2 * j * std::acos(-1.0L) / 3)); } if (D > 0) { LD x = want[0]; for (int g = 0; g < 40; ++g) { LD dv = 3 * x * x + pp; if (std::fabs(dv) < 1e-9L) break; x -= (x * x * x + pp * x + qq) / dv; } want[0] = x; } tol = 1e-5L; break; }
      case 4: { double a = s.of<double>({1, -1, 2}), r = (double)s.centred(-9, 9); p.coefficients() << -a * r * r * r, 3 * a * r * r, -3 * a * r, a; want = {r}; tol = 2e-4L; break; }                          // triple root: p and q vanish exactly or nearly
      case 5: { double r = (double)s.centred(-9, 9), q = r + (double)s.range(1, 9) * (s.coin() ? 1 : -1); double a = s.of<double>({1, -1, 2}); p.coefficients() << -a * r * r * q, a * (r * r + 2 * r * q), -a * (2 * r + q), a; want = {r, q}; tol = 2e-4L; exact = false; break; }   // double root: may be reported once, twice or (rounding) not at all
      default: { double b = s.coin(1, 3) ? 0 : lead(s), cc = s.coin(1, 6) ? 0 : lead(s), d = coef(s); vanish = true; if (b != 0) { LD D = (LD)cc * cc - 4 * (LD)b * d; ASSUME(std::fabs(D) > 1e-2L); if (D > 0) want = {(-cc + std::sqrt(D)) / (2 * (LD)b), (-cc - std::sqrt(D)) / (2 * (LD)b)}; tol = 1e-6L * (1 + std::fabs((LD)cc / b)); } else if (cc != 0) { want = {-(LD)d / cc}; tol = 1e-10L * (1 + std::fabs((LD)d / cc)); } p.coefficients() << d, cc, b, 0; } }
    k = coefs(p); got = listof(s.coin() ? Roots<CubicPolynomial>()(p) : CubicPolynomial::Roots(p));
  }
  NOTE("degree " << deg << " " << show(k) << " -> " << showv(got)); for (LD w : want) tol = std::max(tol, 1e-7L * std::fabs(w));
  if (exact) match(k, got, want, tol);
  else { for (double g : got) { CHECK(std::isfinite(g), "a root of " << show(k) << " is not a number"); bool ok = false; for (LD w : want) if (std::fabs(w - g) <= tol) ok = true; CHECK(ok, "reported root " << g << " of " << show(k) << " is not one of " << (double)want[0] << ", " << (double)want[1]); } bool ok = false; for (double g : got) if (std::fabs(want[1] - g) <= tol) ok = true; CHECK(ok, "the simple root " << (double)want[1] << " of " << show(k) << " is missing: " << showv(got)); }
  CHECK(got.size() <= std::max<size_t>(deg, 1), "too many roots"); c.nontrivial(want.size() >= 2 || vanish || deg == 3); c.label(vanish, "leading coefficient zero"); c.label(want.empty(), "no real root"); c.label(want.size() == 3, "three roots"); c.label(deg == 3 && want.size() == 1, "cubic with one root");
}
PBT(poly_roots_scaled, 2, "the polynomial is scaled by a factor other than one") {
  // the roots of c p(x/m) are those of p times m: whole numbers as roots, factors of two as scales, so that nothing is rounded before the search for the roots
  int ci = s.coin(1, 4) ? 0 : (int)s.centred(-45, 45), mi = s.coin(1, 4) ? 0 : (int)s.centred(-30, 30); double cs = std::ldexp(s.coin() ? 1.0 : -1.0, ci), m = std::ldexp(1.0, mi); unsigned deg = 1 + (unsigned)s.below(3);
  LD r = s.centred(-12, 12), q = s.centred(-12, 12), t = s.centred(-12, 12); int kind = (int)s.below(3); std::vector<LD> b, want; // b: coefficients, lowest first
  if (deg == 1) { b = {-r, 1}; want = {r}; }
  else if (deg == 2) { if (kind == 0) { b = {r * q, -(r + q), 1}; want = {r}; if (q != r) want.push_back(q); } else if (kind == 1) { b = {r * r, -2 * r, 1}; want = {r}; } else { LD w = 1 + std::fabs(q); b = {r * r + w * w, -2 * r, 1}; } }
  else if (kind < 2) { if (q == r) q = r + 1; while (t == r || t == q) t += 1; b = {-r * q * t, r * q + r * t + q * t, -(r + q + t), 1}; want = {r, q, t}; }
  else { LD w = 1 + std::fabs(t), n2 = q * q + w * w; b = {-r * n2, n2 + 2 * q * r, -(2 * q + r), 1}; want = {r}; }
  for (size_t i = 0; i < b.size(); ++i) b[i] = b[i] * cs * std::pow((LD)m, (LD)(b.size() - 1 - i)); for (LD& w : want) w *= m; std::vector<double> got;
  if (deg == 1) { LinearFunction p; p.coefficients() << (double)b[0], (double)b[1]; got = listof(Roots<LinearFunction>()(p)); }
  else if (deg == 2) { QuadraticPolynomial p; p.coefficients() << (double)b[0], (double)b[1], (double)b[2]; got = listof(Roots<QuadraticPolynomial>()(p)); }
  else { CubicPolynomial p; p.coefficients() << (double)b[0], (double)b[1], (double)b[2], (double)b[3]; got = listof(Roots<CubicPolynomial>()(p)); }
  NOTE("degree " << deg << " scaled by " << cs << ", roots by " << m << ": " << show(b) << " -> " << showv(got)); match(b, got, want, (deg == 3 ? 1e-5L : 1e-8L) * m); c.nontrivial(ci || mi); c.label(want.empty(), "no real root");
}
PBT(poly_print, 1, "degree above one") {
  std::ostringstream o; std::vector<LD> k; if (s.coin()) { CubicPolynomial p = gen<3>(s); k = coefs(p); o << p; } else if (s.coin()) { QuinticPolynomial p = gen<5>(s); k = coefs(p); o << p; } else { LinearFunction p = gen<1>(s); k = coefs(p); o << p; }
  NOTE(show(k) << " prints " << o.str()); std::string t = o.str(); size_t at = 0;
  for (size_t i = 0; i < k.size(); ++i) { if (i) { CHECK(t.compare(at, 3, " + ") == 0, "no separator before term " << i << ": " << t); at += 3; } char* e; double v = strtod(t.c_str() + at, &e); size_t n = e - t.c_str(); CHECK(n > at && std::fabs(v - k[i]) <= 0.0051, "term " << i << " printed as " << v << " in " << t << " for " << show(k)); at = n; while (at < t.size() && t[at] == ' ' && t.compare(at, 3, " + ") != 0) ++at; if (i) { std::string x = "x^" + std::to_string(i); CHECK(t.compare(at, x.size(), x) == 0, "term " << i << " is not followed by " << x << ": " << t); at += x.size(); } }
  CHECK(at == t.size(), "trailing text: " << t); c.nontrivial(k.size() > 2);
}
// ---------------- interpolation blueprints ----------------
PBT(interp_linear, 2, "the slope is not zero") {
  double x0 = arg(s), y0 = coef(s); LinearFunction f; LD a;
  if (s.coin()) { double dx = s.positive(0.05, 6) * (s.coin() ? 1 : -1), x1 = x0 + dx, y1 = coef(s); auto bp = LinearFunction::Interpolation(x0, y0, x1, y1); if (s.coin()) f = bp.instantiate(); else if (s.coin()) f = LinearFunction(bp); else bp.apply(f); a = ((LD)y1 - y0) / ((LD)x1 - x0); NOTE("(" << x0 << "," << y0 << ")-(" << x1 << "," << y1 << ") " << show(coefs(f))); LD t = 1e-12L * (std::fabs((LD)y0) + std::fabs((LD)y1) + std::fabs(a) * (std::fabs((LD)x0) + std::fabs((LD)x1))); near("line through the second point", f(x1), y1, t, coefs(f), x1); near("line through the first point", f(x0), y0, t, coefs(f), x0); }
  else { a = coef(s); auto bp = LinearFunction::PointSlopeForm(x0, y0, (double)a); if (s.coin()) f = bp.instantiate(); else if (s.coin()) f = LinearFunction(bp); else bp.apply(f); NOTE("(" << x0 << "," << y0 << ") slope " << (double)a << " " << show(coefs(f))); near("line through the point", f(x0), y0, 1e-12L * (std::fabs((LD)y0) + std::fabs(a * x0)), coefs(f), x0); }
  near("slope", f.derivative(x0), a, 1e-12L * std::fabs(a), coefs(f), x0); c.nontrivial(a != 0);
}
namespace {
double joint(pbt::Src& s) { return s.coin(1, 4) ? 0 : (s.coin() ? (double)s.centred(-6, 6) : s.real(6)); }
template <unsigned N> LD itol(const Polynomial<N>& p, double x0, double x1, double dx) { LD b = std::fabs((LD)x0) + std::fabs((LD)x1) + 1; LD v = mag(coefs(p), 2 * b); return 1e-12L * v / std::min<LD>(1, (LD)dx * dx); }
}
PBT(interp_polynomial, 4, "all the given end conditions are not zero") {
  double x0 = joint(s), dx = s.coin() ? (double)s.range(1, 6) : s.positive(0.2, 6), x1 = x0 + (s.coin(1, 6) ? -dx : dx); double y0 = joint(s), y1 = joint(s), d0 = joint(s), d1 = joint(s), e0 = joint(s), e1 = joint(s); int how = (int)s.below(3); unsigned kind = (unsigned)s.below(3);
  NOTE("kind " << kind << " x " << x0 << ".." << x1 << " y " << y0 << "," << y1 << " y' " << d0 << "," << d1 << " y'' " << e0 << "," << e1); LD tol = 0;
  if (kind == 0) { CubicPolynomial p; auto bp = CubicPolynomial::DerivativeInterpolation(x0, y0, d0, x1, y1, d1); if (how == 0) p = bp.instantiate(); else if (how == 1) p = CubicPolynomial(bp); else bp.apply(p); auto k = coefs(p); tol = itol(p, x0, x1, dx); near("initial value", p(x0), y0, tol, k, x0); near("final value", p(x1), y1, tol, k, x1); near("initial derivative", p.derivative(x0), d0, tol, k, x0); near("final derivative", p.derivative(x1), d1, tol, k, x1); c.nontrivial(y0 && y1 && d0 && d1); }
  else if (kind == 1) { CubicPolynomial p; auto bp = CubicPolynomial::SecondDerivativeInterpolation(x0, y0, e0, x1, y1, e1); if (how == 0) p = bp.instantiate(); else if (how == 1) p = CubicPolynomial(bp); else bp.apply(p); auto k = coefs(p); tol = itol(p, x0, x1, dx); near("initial value", p(x0), y0, tol, k, x0); near("final value", p(x1), y1, tol, k, x1); near("initial second derivative", p.dderivative(x0), e0, tol, k, x0); near("final second derivative", p.dderivative(x1), e1, tol, k, x1); c.nontrivial(y0 && y1 && e0 && e1); }
  else { QuinticPolynomial p; auto bp = QuinticPolynomial::Interpolation(x0, y0, d0, e0, x1, y1, d1, e1); if (how == 0) p = bp.instantiate(); else if (how == 1) p = QuinticPolynomial(bp); else bp.apply(p); auto k = coefs(p); tol = itol(p, x0, x1, dx); near("initial value", p(x0), y0, tol, k, x0); near("final value", p(x1), y1, tol, k, x1); near("initial derivative", p.derivative(x0), d0, tol, k, x0); near("final derivative", p.derivative(x1), d1, tol, k, x1); near("initial second derivative", p.dderivative(x0), e0, tol, k, x0); near("final second derivative", p.dderivative(x1), e1, tol, k, x1); c.nontrivial(y0 && y1 && d0 && d1 && e0 && e1); }
  c.label(x0 != 0, "shifted start"); c.label(tol > 1e-6L, "loose tolerance"); c.label(tol <= 1e-6L, "tight tolerance");
}
PBT(line_intersection, 2, "the lines cross away from the origin") {
  LinearFunction f, g; double a0 = coef(s), a1 = coef(s), b0 = arg(s), b1 = s.coin(1, 5) ? b0 : arg(s); if (b0 != b1 && std::fabs(b0 - b1) < 1e-3) b1 = b0 + 0.5; f.coefficients() << a0, b0; g.coefficients() << a1, b1;
  Intersection<LinearFunction> op; bool thrown = false, rethrown = false; CartesianPoint2d pt, pt2; int err = -1;
  try { pt = op(f, g); } catch (const StandardException& e) { thrown = true; err = e.flag(); }
  try { pt2 = LinearFunction::Intersection(f, g); } catch (const StandardException&) { rethrown = true; }
  NOTE(a0 << "+" << b0 << "x and " << a1 << "+" << b1 << "x: " << (thrown ? "none" : "") << " (" << pt.x() << "," << pt.y() << ")");
  if (b0 == b1) { CHECK(op.fail(), "parallel lines were not reported as a failure"); 
#ifndef ECL_DISABLE_EXCEPTIONS
    CHECK(thrown && rethrown && err == OutOfRangeError, "parallel lines must be refused (thrown " << thrown << "," << rethrown << " flag " << err << ")");
#endif
  } else { CHECK(!thrown && !rethrown && !op.fail(), "crossing lines were refused"); LD x = ((LD)a0 - a1) / ((LD)b1 - b0), y = a0 + b0 * x, t = 1e-12L * (1 + std::fabs(x) * 4 + std::fabs((LD)a0) + std::fabs((LD)b0 * x) * 4) / std::min<LD>(1, std::fabs((LD)b1 - b0)); CHECK(std::fabs(pt.x() - x) <= t && std::fabs(pt.y() - y) <= t, "intersection of " << a0 << "+" << b0 << "x and " << a1 << "+" << b1 << "x at (" << pt.x() << "," << pt.y() << ") expected (" << (double)x << "," << (double)y << ")"); CHECK(pt2.x() == pt.x() && pt2.y() == pt.y(), "the two interfaces differ");
    // the same object tells about its last operation only
    try { op(f, f); } catch (const StandardException&) {} CHECK(op.fail(), "coinciding lines were not reported as a failure"); try { op(f, g); } catch (const StandardException&) { FAIL("crossing lines refused"); } CHECK(!op.fail(), "failure still reported after a successful intersection"); c.nontrivial(x != 0 && y != 0); }
  c.label(b0 == b1, "parallel");
}
PBT(poly_extrema, 4, "a stationary point lies inside the interval") {
  double lo = arg(s), hi = lo + (s.coin(1, 8) ? 0.0 : s.positive(0.01, 8)); bool inside = false; LD mx, mn, tol; double gmax, gmin; std::vector<LD> k; bool stat = s.coin();
  if (s.coin(1, 5)) { LinearFunction f = gen<1>(s); k = coefs(f); mx = std::max(ev(k, lo), ev(k, hi)); mn = std::min(ev(k, lo), ev(k, hi)); gmax = stat ? LinearFunction::Maximum(lo, hi, f) : Maximum<LinearFunction>()(lo, hi, f); gmin = stat ? LinearFunction::Minimum(lo, hi, f) : Minimum<LinearFunction>()(lo, hi, f); }
  else {
    CubicPolynomial p; if (s.coin()) { for (int i = 0; i < 4; ++i) { double v = coef(s); if (s.coin(1, 8)) v *= std::pow(10.0, -(double)s.range(6, 18)); p.coefficients()[i] = v; } }
    else { double r = s.coin() ? lo + (hi - lo) * (double)s.range(0, 20) / 20 : arg(s), q = s.coin() ? lo + (hi - lo) * (double)s.range(0, 20) / 20 : arg(s), a = lead(s); p.coefficients() << coef(s), 3 * a * r * q, -1.5 * a * (r + q), a; }   // stationary points chosen
    k = coefs(p); auto d = eval_d(k); mx = std::max(ev(k, lo), ev(k, hi)); mn = std::min(ev(k, lo), ev(k, hi));
    std::vector<LD> crit; LD A = d[2], B = d[1], C = d[0]; if (A == 0) { if (B != 0) crit.push_back(-C / B); } else { LD D = B * B - 4 * A * C; if (D >= 0) { LD q = -(B + (B > 0 ? std::sqrt(D) : -std::sqrt(D))) / 2; crit.push_back(q / A); if (q != 0) crit.push_back(C / q); } }
    for (LD x : crit) if (x > lo && x < hi) { inside = true; mx = std::max(mx, ev(k, x)); mn = std::min(mn, ev(k, x)); } for (int i = 0; i <= 60; ++i) { LD x = lo + ((LD)hi - lo) * i / 60; mx = std::max(mx, ev(k, x)); mn = std::min(mn, ev(k, x)); }
    gmax = stat ? CubicPolynomial::Maximum(lo, hi, p) : Maximum<CubicPolynomial>()(lo, hi, p); gmin = stat ? CubicPolynomial::Minimum(lo, hi, p) : Minimum<CubicPolynomial>()(lo, hi, p);
  }
  NOTE(show(k) << " on [" << lo << "," << hi << "] min " << gmin << " max " << gmax); tol = 1e-10L * mag(k, std::max(std::fabs(lo), std::fabs(hi))) + 1e-300L;
  CHECK(std::fabs(gmax - mx) <= tol, "maximum of " << show(k) << " on [" << lo << "," << hi << "] is " << gmax << " expected " << (double)mx); CHECK(std::fabs(gmin - mn) <= tol, "minimum of " << show(k) << " on [" << lo << "," << hi << "] is " << gmin << " expected " << (double)mn); c.nontrivial(inside); c.label(lo == hi, "empty interval");
}
PBT_MAIN
