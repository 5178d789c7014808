// Splines against an independent long double solution of the defining conditions.
#include <algorithm>
#include <cmath>
#include <pbt.hpp>
#include <ecl/geometry/cubic_spline.hpp>
#include <ecl/geometry/tension_spline.hpp>
#include <ecl/geometry/smooth_linear_spline.hpp>
#include <ecl/geometry/spline_function.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <ecl/exceptions/data_exception.hpp>
using namespace ecl;
typedef long double LD;
namespace {
struct Data { std::vector<double> x, y; Array<double> ax, ay; };
void gen_data(pbt::Src& s, Data& d, int lo = 2) {
  int n = s.len(lo, 12); double x = s.coin() ? 0 : (double)s.centred(-5, 5); int style = (int)s.below(4);
  for (int i = 0; i < n; ++i) { d.x.push_back(x); x += style == 0 ? 1.0 : style == 1 ? (double)s.range(1, 4) : style == 2 ? s.positive(0.1, 3) : s.positive(0.02, 1); double y = s.coin() ? (double)s.centred(-6, 6) : s.real(10); if (i > 0 && s.coin(1, 8)) y = d.y.back(); d.y.push_back(y); }
  if (s.coin(1, 8)) { double m = s.real(3); for (int i = 0; i < n; ++i) d.y[i] = m * d.x[i] + 1; }   // collinear data
  d.ax.resize(n); d.ay.resize(n); for (int i = 0; i < n; ++i) { d.ax[i] = d.x[i]; d.ay[i] = d.y[i]; }
}
std::string show(const Data& d) { std::ostringstream o; o.precision(17); for (size_t i = 0; i < d.x.size(); ++i) o << "(" << d.x[i] << "," << d.y[i] << ") "; return o.str(); }
// dense gaussian elimination with pivoting
std::vector<LD> solve(std::vector<std::vector<LD>> A, std::vector<LD> b) {
  size_t n = b.size(); for (size_t k = 0; k < n; ++k) { size_t p = k; for (size_t i = k + 1; i < n; ++i) if (std::fabs(A[i][k]) > std::fabs(A[p][k])) p = i; std::swap(A[k], A[p]); std::swap(b[k], b[p]); if (A[k][k] == 0) throw pbt::Discard(); for (size_t i = k + 1; i < n; ++i) { LD f = A[i][k] / A[k][k]; if (f == 0) continue; for (size_t j = k; j < n; ++j) A[i][j] -= f * A[k][j]; b[i] -= f * b[k]; } }
  for (size_t k = n; k-- > 0;) { for (size_t j = k + 1; j < n; ++j) b[k] -= A[k][j] * b[j]; b[k] /= A[k][k]; } return b;
}
double query(pbt::Src& s, const Data& d) { size_t n = d.x.size(); switch (s.below(4)) { case 0: return d.x[s.below(n)]; case 1: { size_t i = s.below(n); double x = s.coin() ? std::nextafter(d.x[i], 1e9) : std::nextafter(d.x[i], -1e9); return std::min(std::max(x, d.x[0]), d.x[n - 1]); } default: { size_t i = s.below(n - 1); return std::min(d.x[i + 1], d.x[i] + (d.x[i + 1] - d.x[i]) * (double)s.range(0, 1000) / 1000); } } }
size_t piece(const Data& d, double x) { size_t i = 0; while (i + 2 < d.x.size() && x > d.x[i + 1]) ++i; return i; }
struct Val { LD v, d, dd; };
void cmp(const char* what, double x, double got, LD want, LD tol, const Data& d) { if (!(std::fabs((LD)got - want) <= tol)) FAIL(what << " at " << x << " is " << got << ", expected " << (double)want << " (tolerance " << (double)tol << ") for " << show(d)); }
template <typename S> void outside(const S& sp, double lo, double hi) {
#if !defined(NDEBUG) && !defined(ECL_DISABLE_EXCEPTIONS)
  for (double x : {lo - 0.5, hi + 0.5, std::nextafter(lo, -1e9), std::nextafter(hi, 1e9)}) for (int k = 0; k < 3; ++k) { bool thrown = false; try { (void)(k == 0 ? sp(x) : k == 1 ? sp.derivative(x) : sp.dderivative(x)); } catch (const StandardException& e) { thrown = e.flag() == OutOfRangeError; } CHECK(thrown, "an argument outside the domain was accepted: " << x << " not in [" << lo << "," << hi << "]"); }
#endif
}
int lines(const std::string& t) { return (int)std::count(t.begin(), t.end(), '\n'); }
// the printed text with its numbers taken out, and those numbers (a number is what starts with a digit, or with a sign that follows no digit, letter or bracket)
bool scan(const std::string& t, std::string& rest, std::vector<double>& v) { rest.clear(); v.clear(); for (size_t i = 0; i < t.size();) { bool sign = (t[i] == '-' || t[i] == '+') && i + 1 < t.size() && isdigit((unsigned char)t[i + 1]) && (i == 0 || strchr(" ({[-+*\n", t[i - 1])); if ((isdigit((unsigned char)t[i]) && (i == 0 || !strchr("^", t[i - 1]))) || sign) { char* e; v.push_back(strtod(t.c_str() + i, &e)); size_t n = e - t.c_str(); if (n == i) return false; i = n; rest += '#'; } else if (t[i] == ' ' || t[i] == '\n') ++i; else rest += t[i++]; } return true; }
void printed(const std::string& t, const std::string& want, const std::vector<LD>& w, LD rel = 1e-9L) { std::string rest; std::vector<double> v; CHECK(scan(t, rest, v) && rest == want && v.size() == w.size(), "printed as " << t << " which reads " << rest << " with " << v.size() << " numbers, expected " << want << " with " << w.size()); for (size_t i = 0; i < w.size(); ++i) CHECK(std::fabs(v[i] - w[i]) <= 0.0051L + rel * std::max<LD>(1, std::fabs(w[i])), "number " << i << " is printed as " << v[i] << " rather than " << (double)w[i] << " in " << t); }
void add_poly(std::string& s, std::vector<LD>& w, const std::vector<double>& k) { s += "#"; w.push_back(k[0]); for (size_t i = 1; i < k.size(); ++i) { s += "+#x^" + std::to_string(i); w.push_back(k[i]); } }
void add_tension(std::string& s, std::vector<LD>& w, double x0, double y0, double z0, double x1, double y1, double z1) { LD h = (LD)x1 - x0; if (z0 == 0 && z1 == 0) { s += "#"; w.push_back(0); } else { s += "{"; if (z0 != 0) { s += "#*sinh[tau(#-x)]"; w.push_back(z0); w.push_back(x1); } if (z0 != 0 && z1 != 0) s += "+"; if (z1 != 0) { s += "#*sinh[tau(x-#)]"; w.push_back(z1); w.push_back(x0); } s += "}/[tau^2sinh(#*tau)]"; w.push_back(h); } s += "+(#-#/tau^2)(#-x)+(#-#/tau^2)(x-#)"; for (LD v : {(LD)y0 / h, (LD)z0 / h, (LD)x1, (LD)y1 / h, (LD)z1 / h, (LD)x0}) w.push_back(v); }
template <typename F> bool refused(F f) { try { f(); return false; } catch (const StandardException& e) { return e.flag() == OutOfRangeError; } }
}
PBT(spline_cubic, 4, "three points or more that are not on one line") {
  Data d; gen_data(s, d); int n = (int)d.x.size(); unsigned kind = (unsigned)s.below(3); double v0 = s.real(6), vf = s.real(6); if (s.coin(1, 4)) v0 = 0; CubicSpline sp; bool inst = s.coin();
  if (kind == 0) { auto bp = CubicSpline::Natural(d.ax, d.ay); if (inst) sp = bp.instantiate(); else sp = CubicSpline(bp); } else if (kind == 1) { auto bp = CubicSpline::ContinuousDerivatives(d.ax, d.ay, v0, vf); if (inst) sp = bp.instantiate(); else sp = CubicSpline(bp); } else { auto bp = CubicSpline::DerivativeHeuristic(d.ax, d.ay, v0, vf); if (inst) sp = bp.instantiate(); else bp.apply(sp); }
  std::vector<LD> h(n - 1), m(n - 1); for (int i = 0; i + 1 < n; ++i) { h[i] = (LD)d.x[i + 1] - d.x[i]; m[i] = ((LD)d.y[i + 1] - d.y[i]) / h[i]; }
  std::vector<LD> M(n), D(n);   // second derivatives, or first derivatives
  if (kind < 2) { std::vector<std::vector<LD>> A(n, std::vector<LD>(n, 0)); std::vector<LD> b(n, 0); for (int i = 1; i + 1 < n; ++i) { A[i][i - 1] = h[i - 1]; A[i][i] = 2 * (h[i - 1] + h[i]); A[i][i + 1] = h[i]; b[i] = 6 * (m[i] - m[i - 1]); } if (kind == 0) A[0][0] = A[n - 1][n - 1] = 1; else { A[0][0] = 2 * h[0]; A[0][1] = h[0]; b[0] = 6 * (m[0] - v0); A[n - 1][n - 1] = 2 * h[n - 2]; A[n - 1][n - 2] = h[n - 2]; b[n - 1] = 6 * (vf - m[n - 2]); } M = solve(A, b); }
  else { D[0] = v0; D[n - 1] = vf; for (int i = 1; i + 1 < n; ++i) D[i] = (m[i - 1] + m[i]) / 2; }
  auto at = [&](double x, size_t i) { Val v; LD t = (LD)x - d.x[i], H = h[i], c1, c2, c3; if (kind < 2) { c2 = M[i] / 2; c3 = (M[i + 1] - M[i]) / (6 * H); c1 = m[i] - H * (2 * M[i] + M[i + 1]) / 6; } else { c1 = D[i]; c2 = (3 * m[i] - 2 * D[i] - D[i + 1]) / H; c3 = (D[i] + D[i + 1] - 2 * m[i]) / (H * H); } v.v = d.y[i] + t * (c1 + t * (c2 + t * c3)); v.d = c1 + t * (2 * c2 + t * 3 * c3); v.dd = 2 * c2 + 6 * c3 * t; return v; };
  LD X = 1, K = 1; for (double x : d.x) X = std::max<LD>(X, std::fabs(x)); LD H0 = *std::min_element(h.begin(), h.end()); for (int i = 0; i + 1 < n; ++i) { Val a = at(d.x[i], i), b = at(d.x[i + 1], i); K = std::max({K, std::fabs((LD)d.y[i]), std::fabs((LD)d.y[i + 1]), X * std::fabs(a.d), X * X * std::fabs(a.dd), X * X * std::fabs(b.dd), X * X * X * std::fabs(b.dd - a.dd) / h[i]}); }
  LD tol = 2e-12L * K / std::min<LD>(1, H0); CubicSpline copy(sp); { Array<double> other(3); other << 1, 2, 3; sp = CubicSpline(CubicSpline::Natural(other, other)); sp = copy; }
  NOTE((kind == 0 ? "natural " : kind == 1 ? "clamped " : "heuristic ") << show(d) << " y' " << v0 << " " << vf);
  CHECK((int)copy.domain().size() == n && (int)copy.polynomials().size() == n - 1, "pieces " << copy.polynomials().size() << " for " << n << " points"); for (int i = 0; i < n; ++i) CHECK(copy.domain()[i] == d.x[i], "domain value " << i);
  for (int i = 0; i < n; ++i) cmp("the spline misses a data point; value", d.x[i], sp(d.x[i]), d.y[i], tol, d);
  for (int i = 1; i + 1 < n; ++i) { double x = d.x[i], r = std::nextafter(x, 1e9); cmp("value jumps; value just right of a knot", r, sp(r), sp(x), 3 * tol, d); cmp("derivative jumps; derivative just right of a knot", r, sp.derivative(r), sp.derivative(x), 3 * tol, d); if (kind < 2) cmp("second derivative jumps; second derivative just right of a knot", r, sp.dderivative(r), sp.dderivative(x), 3 * tol, d); }
  if (kind == 0) { cmp("natural end; second derivative", d.x[0], sp.dderivative(d.x[0]), 0, tol, d); cmp("natural end; second derivative", d.x[n - 1], sp.dderivative(d.x[n - 1]), 0, tol, d); } else { cmp("given end derivative; derivative", d.x[0], sp.derivative(d.x[0]), v0, tol, d); cmp("given end derivative; derivative", d.x[n - 1], sp.derivative(d.x[n - 1]), vf, tol, d); }
  for (int q = 0; q < 4; ++q) { double x = query(s, d); size_t i = piece(d, x); Val w = at(x, i); cmp("value", x, copy(x), w.v, tol, d); cmp("derivative", x, copy.derivative(x), w.d, tol, d); cmp("second derivative", x, copy.dderivative(x), w.dd, tol, d); }
  outside(sp, d.x[0], d.x[n - 1]); std::ostringstream o; o << sp; CHECK(lines(o.str()) == n - 1, "printed: " << o.str()); { std::string w; std::vector<LD> v; for (int i = 0; i + 1 < n; ++i) { auto p = sp.polynomials()[i]; add_poly(w, v, {p.coefficients()[0], p.coefficients()[1], p.coefficients()[2], p.coefficients()[3]}); } printed(o.str(), w, v); }
  bool curved = false; for (int i = 1; i + 1 < n; ++i) if (std::fabs(m[i] - m[i - 1]) > 1e-6L) curved = true; c.nontrivial(n > 2 && curved); c.label(n == 2, "two points"); c.label(kind == 0, "natural"); c.label(kind == 1, "clamped"); c.label(kind == 2, "heuristic"); c.label(tol > 1e-6L, "loose tolerance");
}
PBT(spline_tension, 4, "three points or more that are not on one line") {
  Data d; gen_data(s, d); int n = (int)d.x.size(); double hmax = 0; for (int i = 0; i + 1 < n; ++i) hmax = std::max(hmax, d.x[i + 1] - d.x[i]); double tau = s.coin() ? (double)s.range(1, 12) : s.positive(0.5, 20); if (s.coin(1, 10)) tau = (s.coin() ? 500 : 3000) / hmax;
  auto bp = TensionSpline::Natural(d.ax, d.ay, tau); TensionSpline sp; if (s.coin()) sp = bp.instantiate(); else sp = TensionSpline(bp);
  std::vector<LD> h(n - 1), m(n - 1), z(n, 0); LD T = tau; for (int i = 0; i + 1 < n; ++i) { h[i] = (LD)d.x[i + 1] - d.x[i]; m[i] = ((LD)d.y[i + 1] - d.y[i]) / h[i]; }
  { std::vector<std::vector<LD>> A(n, std::vector<LD>(n, 0)); std::vector<LD> b(n, 0); A[0][0] = A[n - 1][n - 1] = 1; for (int i = 1; i + 1 < n; ++i) { auto al = [&](int k) { return 1 / h[k] - T / std::sinh(T * h[k]); }; auto be = [&](int k) { return T * std::cosh(T * h[k]) / std::sinh(T * h[k]) - 1 / h[k]; }; A[i][i - 1] = al(i - 1); A[i][i] = be(i - 1) + be(i); A[i][i + 1] = al(i); b[i] = T * T * (m[i] - m[i - 1]); } z = solve(A, b); }
  auto at = [&](double x, size_t i) { Val v; LD a = T * ((LD)d.x[i + 1] - x), b = T * ((LD)x - d.x[i]), S = std::sinh(T * h[i]); LD p0 = d.y[i] - z[i] / (T * T), p1 = d.y[i + 1] - z[i + 1] / (T * T); v.v = (z[i] * std::sinh(a) + z[i + 1] * std::sinh(b)) / (T * T * S) + p0 * ((LD)d.x[i + 1] - x) / h[i] + p1 * ((LD)x - d.x[i]) / h[i]; v.d = (-z[i] * std::cosh(a) + z[i + 1] * std::cosh(b)) / (T * S) + (p1 - p0) / h[i]; v.dd = (z[i] * std::sinh(a) + z[i + 1] * std::sinh(b)) / S; return v; };
  LD K = 1, H0 = *std::min_element(h.begin(), h.end()); for (int i = 0; i < n; ++i) K = std::max({K, std::fabs((LD)d.y[i]), std::fabs(z[i]), std::fabs(z[i]) / (T * T)}); LD tol = 1e-11L * K * (1 + T) / (std::min<LD>(1, H0) * std::min<LD>(1, T * T * H0 * H0)) * (1 + (LD)hmax * T * 0.1L);
  NOTE("tension " << tau << " " << show(d)); TensionSpline copy(sp); sp = TensionSpline(); sp = copy; CHECK((int)copy.domain().size() == n, "domain size " << copy.domain().size()); for (int i = 0; i < n; ++i) CHECK(copy.domain()[i] == d.x[i], "domain value " << i);
  for (int i = 0; i < n; ++i) cmp("the spline misses a data point; value", d.x[i], sp(d.x[i]), d.y[i], tol, d);
  for (int i = 1; i + 1 < n; ++i) { double x = d.x[i], r = std::nextafter(x, 1e9); cmp("value jumps; value just right of a knot", r, sp(r), sp(x), 3 * tol, d); cmp("derivative jumps; derivative just right of a knot", r, sp.derivative(r), sp.derivative(x), 3 * tol, d); cmp("second derivative jumps; second derivative just right of a knot", r, sp.dderivative(r), sp.dderivative(x), 3 * tol, d); }
  cmp("natural end; second derivative", d.x[0], sp.dderivative(d.x[0]), 0, tol, d); cmp("natural end; second derivative", d.x[n - 1], sp.dderivative(d.x[n - 1]), 0, tol, d);
  for (int q = 0; q < 4; ++q) { double x = query(s, d); size_t i = piece(d, x); Val w = at(x, i); cmp("value", x, copy(x), w.v, tol, d); cmp("derivative", x, copy.derivative(x), w.d, tol, d); cmp("second derivative", x, copy.dderivative(x), w.dd, tol, d); }
  { bool clear = tau <= 20 && tol < 1e-5L; for (int i = 1; i + 1 < n; ++i) if (std::fabs(z[i]) < 1e-4L) clear = false; if (clear) { std::ostringstream o; o << copy; std::string w; std::vector<LD> v; for (int i = 0; i + 1 < n; ++i) add_tension(w, v, d.x[i], d.y[i], i ? (double)z[i] : 0, d.x[i + 1], d.y[i + 1], i + 2 < n ? (double)z[i + 1] : 0); printed(o.str(), w, v, 1e-6L); c.label("printed form compared"); } }
  outside(sp, d.x[0], d.x[n - 1]); bool curved = false; for (int i = 1; i + 1 < n; ++i) if (std::fabs(m[i] - m[i - 1]) > 1e-6L) curved = true; c.nontrivial(n > 2 && curved); c.label(n == 2, "two points"); c.label(tol > 1e-5L, "loose tolerance"); c.label(tau > 20, "very tight"); c.label(tau * hmax > 710, "hyperbolic functions overflow");
}
PBT(spline_tension_function, 1, "both end curvatures are not zero") {
  double x0 = (double)s.centred(-5, 5), h = s.positive(0.1, 4), x1 = x0 + h, y0 = s.real(9), y1 = s.real(9), z0 = s.coin(1, 5) ? 0 : s.real(9), z1 = s.coin(1, 5) ? 0 : s.real(9), tau = s.positive(0.5, 12); h = x1 - x0; TensionFunction f; auto bp = TensionFunction::Interpolation(x0, y0, z0, x1, y1, z1); if (s.coin()) f = bp.instantiate(); else f = TensionFunction(bp); NOTE("(" << x0 << "," << y0 << "," << z0 << ") (" << x1 << "," << y1 << "," << z1 << ") tau " << tau); Data d; LD tol = 1e-11L * 100 * (1 + 1 / (LD)(tau * tau * h * h)) * (1 + tau);
  cmp("value", x0, f(tau, x0), y0, tol, d); cmp("value", x1, f(tau, x1), y1, tol, d); cmp("second derivative", x0, f.dderivative(tau, x0), z0, tol, d); cmp("second derivative", x1, f.dderivative(tau, x1), z1, tol, d);
  // y'' - tau^2 y is linear between the points, and the derivatives are the derivatives of the value
  double x = x0 + h * (double)s.range(1, 999) / 1000; LD T = tau, L0 = z0 - T * T * y0, L1 = z1 - T * T * y1, L = L0 + (L1 - L0) * ((LD)x - x0) / h; cmp("second derivative minus tension times value", x, f.dderivative(tau, x) - tau * tau * f(tau, x), L, tol * (1 + T * T), d);
  double e = std::min(1e-4, std::min(x - x0, x1 - x) / 2); if (e > 1e-6) { LD dv = ((LD)f(tau, x + e) - f(tau, x - e)) / (2 * (LD)e); cmp("derivative (against a difference quotient)", x, f.derivative(tau, x), dv, 1e-9L / e + 1e-3L + 2e-8L * (1 + T) * 20, d); }
  { std::ostringstream o; o << f; std::string w; std::vector<LD> v; add_tension(w, v, x0, y0, z0, x1, y1, z1); printed(o.str(), w, v); }
  c.nontrivial(z0 != 0 && z1 != 0);
}
PBT(spline_function, 1, "the function is not constant") {
  CubicPolynomial p; p.coefficients() << s.real(5), s.real(5), s.real(5), s.real(5); double a = s.real(5), b = a + s.positive(0, 5), x = a + (b - a) * (double)s.range(0, 10) / 10; x = std::min(std::max(x, a), b); SplineFunction<CubicPolynomial> f(a, b, p); GenericSplineFunction* g = &f; NOTE("[" << a << "," << b << "] at " << x);
  CHECK((*g)(x) == p(x) && g->derivative(x) == p.derivative(x) && g->dderivative(x) == p.dderivative(x), "a function wrapped for a spline differs from the function at " << x); CHECK(g->domain()[0] == a && g->domain()[1] == b, "domain [" << g->domain()[0] << "," << g->domain()[1] << "] not [" << a << "," << b << "]"); outside(f, a, b); c.nontrivial(p.coefficients()[1] != 0);
}
PBT(spline_bad_data, 1, "always") {
  int n = (int)s.range(0, 5), k = (int)s.range(0, 5); if (n == k) k = n < 2 ? n : n + 1; Array<double> x(n), y(k); for (int i = 0; i < n; ++i) x[i] = i; for (int i = 0; i < k; ++i) y[i] = s.real(3); NOTE(n << " and " << k << " values");
#ifndef ECL_DISABLE_EXCEPTIONS
#ifndef NDEBUG
  CHECK(refused([&] { CubicSpline::Natural(x, y); }), n << " against " << k << " values accepted (natural)"); CHECK(refused([&] { CubicSpline::ContinuousDerivatives(x, y, 0, 0); }), n << " against " << k << " values accepted (clamped)");
  if (n != k) { CHECK(refused([&] { CubicSpline::DerivativeHeuristic(x, y, 0, 0); }), n << " against " << k << " values accepted (heuristic)"); CHECK(refused([&] { TensionSpline::Natural(x, y, 2.0); }), n << " against " << k << " values accepted (tension)"); }
#else
  if (n < 2 || k < 2) { CHECK(refused([&] { CubicSpline::Natural(x, y); }), n << " against " << k << " values accepted (natural)"); CHECK(refused([&] { CubicSpline::ContinuousDerivatives(x, y, 0, 0); }), n << " against " << k << " values accepted (clamped)"); }
#endif
#endif
  c.nontrivial();
}
// ---------------- smoothed linear spline ----------------
namespace {
struct Quint { LD a[6], x0; LD v(LD x) const { LD t = x - x0, r = 0; for (int i = 5; i >= 0; --i) r = r * t + a[i]; return r; } LD dd(LD x) const { LD t = x - x0; return 2 * a[2] + t * (6 * a[3] + t * (12 * a[4] + t * 20 * a[5])); } };
Quint corner(LD x0, LD y0, LD d0, LD x1, LD y1, LD d1) { Quint q; LD T = x1 - x0, D = y1 - y0; q.x0 = x0; q.a[0] = y0; q.a[1] = d0; q.a[2] = 0; q.a[3] = (20 * D - (8 * d1 + 12 * d0) * T) / (2 * T * T * T); q.a[4] = (-30 * D + (14 * d1 + 16 * d0) * T) / (2 * T * T * T * T); q.a[5] = (12 * D - 6 * (d0 + d1) * T) / (2 * T * T * T * T * T); return q; }
LD peak(const Quint& q, LD x0, LD x1) { LD b = 0; for (LD x : {x0, x1}) b = std::max(b, std::fabs(q.dd(x))); LD A = 60 * q.a[5], B = 24 * q.a[4], C = 6 * q.a[3], D = B * B - 4 * A * C; std::vector<LD> r; if (std::fabs(A) < 1e-15L * (std::fabs(B) + 1)) { if (B != 0) r.push_back(-C / B); } else if (D >= 0) { r.push_back((-B + std::sqrt(D)) / (2 * A)); r.push_back((-B - std::sqrt(D)) / (2 * A)); } for (LD t : r) { LD x = q.x0 + t; if (x > x0 && x < x1) b = std::max(b, std::fabs(q.dd(x))); } return b; }
}
PBT(smooth_spline, 4, "three waypoints or more, at least one of them a corner") {
  Data d; gen_data(s, d); int n = (int)d.x.size(); double amax = s.of<double>({3, 10, 40, 200, 5000}) * (0.5 + (double)s.below(1000) / 1000); if (s.coin(1, 6)) amax = -amax; LD lim = std::fabs((LD)amax);
  std::vector<LD> m(n - 1); for (int i = 0; i + 1 < n; ++i) m[i] = ((LD)d.y[i + 1] - d.y[i]) / ((LD)d.x[i + 1] - d.x[i]);
  int bad = -1; bool close = false, cornered = false; auto side = [&](int i, bool left) { LD w = left ? (LD)d.x[i] - d.x[i - 1] : (LD)d.x[i + 1] - d.x[i]; bool end = left ? i == 1 : i == n - 2; return end ? w : w / 2; };
  for (int i = 1; i + 1 < n; ++i) { if (std::fabs(m[i] - m[i - 1]) < 1e-9L) continue; cornered = true; LD l = d.x[i] - side(i, true), r = d.x[i] + side(i, false); LD p = peak(corner(l, d.y[i] + m[i - 1] * (l - d.x[i]), m[i - 1], r, d.y[i] + m[i] * (r - d.x[i]), m[i]), l, r); for (int j = 1; j <= 5; ++j) if (std::fabs(p * 5 / j - lim) < 1e-6L * lim) close = true; if (p >= lim && bad < 0) bad = i; }
  ASSUME(!close); NOTE("bound " << amax << " " << show(d) << (bad < 0 ? "" : " impossible at ") << bad);
  SmoothLinearSpline sp; int thrown = -1; bool st = s.coin(); try { if (st) sp = SmoothLinearSpline::Interpolation(d.ax, d.ay, amax); else sp = SmoothLinearSpline(d.ax, d.ay, amax); } catch (const DataException<int>& e) { thrown = e.data(); CHECK(e.flag() == ConstructorError, "wrong error flag"); }
  c.nontrivial(cornered); c.label(bad >= 0, "bound impossible"); c.label(n == 2, "two points");
  CHECK(thrown == bad, "construction " << (thrown < 0 ? "succeeded" : "refused at corner ") << thrown << ", expected " << (bad < 0 ? "success" : "refusal at corner ") << bad << " with bound " << amax << " for " << show(d)); if (bad >= 0) return;
  SmoothLinearSpline copy(sp); sp = copy; const Array<double>& dom = copy.domain(); CHECK((int)dom.size() == 2 * (n - 1), "domain has " << dom.size() << " values for " << n << " waypoints"); LD K = 1, X = 1, W = 1; for (int i = 0; i < n; ++i) { K = std::max<LD>(K, std::fabs(d.y[i])); X = std::max<LD>(X, std::fabs(d.x[i])); } for (LD v : m) K = std::max(K, std::fabs(v) * X); for (unsigned i = 0; i + 1 < dom.size(); ++i) if (dom[i + 1] > dom[i]) W = std::min<LD>(W, dom[i + 1] - dom[i]);
  LD tol = 1e-12L * K * std::pow(X / W + 1, 5); if (tol > 1e-2L) { c.label("too ill-conditioned to compare values"); return; }
  CHECK(dom[0] == d.x[0] && dom[2 * (n - 1) - 1] == d.x[n - 1], "the domain does not start and end with the waypoints"); for (unsigned i = 0; i + 1 < dom.size(); ++i) CHECK(dom[i] <= dom[i + 1] + 1e-12 * (double)X, "domain not increasing at " << i << ": " << dom[i] << " " << dom[i + 1]);
  cmp("first waypoint; value", d.x[0], sp(d.x[0]), d.y[0], tol, d); cmp("last waypoint; value", d.x[n - 1], sp(d.x[n - 1]), d.y[n - 1], tol, d);
  for (int i = 1; i + 1 < n; ++i) { double l = dom[2 * i - 1], r = dom[2 * i]; LD slack = 1e-9L * X; CHECK(l <= d.x[i] && r >= d.x[i] && l >= d.x[i] - side(i, true) - slack && r <= d.x[i] + side(i, false) + slack, "corner [" << l << "," << r << "] of waypoint " << d.x[i] << " for " << show(d)); if (m[i] != m[i - 1] && l == r && std::fabs(m[i] - m[i - 1]) > 1e-6L) FAIL("corner at " << d.x[i] << " was not smoothed: " << show(d));
    for (double x : {l, r}) { double e = std::nextafter(x, 1e9); if (e > d.x[n - 1] || x > d.x[n - 1] || x < d.x[0]) continue; cmp("value jumps; value just right of a joint", e, sp(e), sp(x), 3 * tol, d); cmp("derivative jumps; derivative just right of a joint", e, sp.derivative(e), sp.derivative(x), 3 * tol / W, d); cmp("second derivative jumps; second derivative just right of a joint", e, sp.dderivative(e), sp.dderivative(x), 6 * tol / (W * W), d); } }
  for (int q = 0; q < 24; ++q) { double x; if (q & 1) x = query(s, d); else { size_t i = (size_t)s.below(dom.size() - 1); x = dom[i] + (dom[i + 1] - dom[i]) * (double)s.range(0, 100) / 100; } x = std::min(std::max(x, d.x[0]), d.x[n - 1]); unsigned k = 0; while (k + 2 < dom.size() && x > dom[k + 1]) ++k; double dd = copy.dderivative(x); CHECK(std::fabs(dd) <= lim * (1 + 1e-6L) + tol / (W * W), "acceleration " << dd << " at " << x << " exceeds the bound " << amax << " for " << show(d));
    if (k % 2 == 0) { size_t i = k / 2; cmp("value on a straight part", x, copy(x), d.y[i] + m[i] * ((LD)x - d.x[i]), tol, d); cmp("derivative on a straight part", x, copy.derivative(x), m[i], tol / W, d); CHECK(dd == 0, "acceleration on a straight part"); }
    else { int i = (int)(k + 1) / 2; LD l = dom[2 * i - 1], r = dom[2 * i]; if (r - l > 1e-6L) { Quint qn = corner(l, d.y[i] + m[i - 1] * (l - d.x[i]), m[i - 1], r, d.y[i] + m[i] * (r - d.x[i]), m[i]); cmp("value in a corner", x, copy(x), qn.v(x), 8 * tol, d); cmp("second derivative in a corner", x, dd, qn.dd(x), 8 * tol / (W * W), d); LD lo = std::min((LD)d.y[i] + m[i - 1] * ((LD)x - d.x[i]), (LD)d.y[i] + m[i] * ((LD)x - d.x[i])); (void)lo; } } }
  outside(sp, d.x[0], d.x[n - 1]); std::ostringstream o; o << sp; CHECK(lines(o.str()) == 2 * (n - 1) - 1, "printed " << o.str());
  { std::istringstream is(o.str()); std::string line; for (int k = 0; std::getline(is, line); ++k) if (k % 2 == 0) { int i = k / 2; std::string w; std::vector<LD> v; w = "#+#x^1"; v = {d.y[i] - m[i] * d.x[i], m[i]}; printed(line, w, v, (LD)1e-9L + tol / W); } else { std::string rest; std::vector<double> v; CHECK(scan(line, rest, v) && rest == "#+#x^1+#x^2+#x^3+#x^4+#x^5", "a corner is printed as " << line); int i = (k + 1) / 2; LD l = dom[2 * i - 1], r = dom[2 * i]; if (r - l > 1e-6L && v.size() == 6) { Quint q = corner(l, d.y[i] + m[i - 1] * (l - d.x[i]), m[i - 1], r, d.y[i] + m[i] * (r - d.x[i]), m[i]); LD x = (l + r) / 2, P = 0, E = 0, xp = 1; for (int j = 0; j < 6; ++j) { P += v[j] * xp; E += 0.0051L * std::fabs(xp) + 1e-9L * std::fabs(v[j] * xp); xp *= x; } CHECK(std::fabs(P - q.v(x)) <= E + 8 * tol, "the printed corner " << line << " is " << (double)P << " at " << (double)x << " where the spline is " << (double)q.v(x)); } } }
}
PBT(smooth_spline_mismatch, 1, "always") { int n = (int)s.range(2, 6), k = (int)s.range(2, 6); if (n == k) ++k; Array<double> x(n), y(k); for (int i = 0; i < n; ++i) x[i] = i; for (int i = 0; i < k; ++i) y[i] = s.real(3); bool ok = false; try { SmoothLinearSpline sp(x, y, 100); } catch (const DataException<int>& e) { ok = e.flag() == OutOfRangeError; } CHECK(ok, n << " domain and " << k << " range values were accepted"); NOTE(n << " " << k); c.nontrivial(); }
PBT_MAIN
