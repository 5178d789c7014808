// Manipulator waypoints and trajectories against the motion they promise.
#include <algorithm>
#include <cmath>
#include <iostream>
#include <memory>
#include <pbt.hpp>
#include <ecl/linear_algebra.hpp>
#include <ecl/containers/array.hpp>
#include <ecl/formatters.hpp>
#include <ecl/manipulators/waypoint.hpp>
#include <ecl/manipulators/trajectory.hpp>
using namespace ecl;
namespace {
typedef Trajectory<JointAngles> Traj; typedef WayPoint<JointAngles> WP;
struct Spec { unsigned dim, n; std::vector<std::vector<double>> a; std::vector<double> r0, rf, nom, dur, acc; bool c0, cf; };
std::string show(const Spec& d) { std::ostringstream o; o.precision(17); for (unsigned i = 0; i < d.n; ++i) { o << "[" << d.dur[i] << "s nominal " << d.nom[i] << ":"; for (double x : d.a[i]) o << " " << x; o << "] "; } o << "rates"; if (d.c0) for (double x : d.r0) o << " " << x; else o << " unset"; o << " ->"; if (d.cf) for (double x : d.rf) o << " " << x; else o << " unset"; o << " accelerations"; for (double x : d.acc) o << " " << x; return o.str(); }
Spec gen(pbt::Src& s, unsigned lo, bool simple) {
  Spec d; d.dim = (unsigned)s.range(1, 3); d.n = (unsigned)s.len(lo, lo + 4); d.c0 = s.coin(1, 2); d.cf = s.coin(1, 2); double m = simple ? 0.8 : 2;
  for (unsigned i = 0; i < d.n; ++i) { std::vector<double> a; for (unsigned j = 0; j < d.dim; ++j) { double v = s.coin() ? (double)s.centred(-6, 6) * m / 4 : s.real(m); if (i && s.coin(1, 6)) v = d.a[i - 1][j]; a.push_back(v); } d.a.push_back(a); d.nom.push_back(s.coin() ? 1 : s.positive(0.3, 2)); d.dur.push_back(s.coin(1, 3) ? 0.0 : s.positive(0.5, 6)); }
  for (unsigned i = 0; i + 1 < d.n; ++i) { bool moves = false; for (unsigned j = 0; j < d.dim; ++j) if (std::fabs(d.a[i + 1][j] - d.a[i][j]) > 1e-3) moves = true; if (!moves && d.dur[i] == 0) d.dur[i] = 1; }
  for (unsigned j = 0; j < d.dim; ++j) { d.r0.push_back(s.coin(1, 3) ? 0 : s.real(0.8)); d.rf.push_back(s.coin(1, 3) ? 0 : s.real(0.8)); d.acc.push_back(s.coin() ? (double)s.range(1, 5) : s.positive(0.3, 8)); }
  return d;
}
void build(pbt::Src& s, const Spec& d, Traj& t) {
  if (s.coin(1, 3)) { double a = d.acc[0]; for (double x : d.acc) a = std::min(a, x); t.maxAccelerations(a); for (unsigned j = 0; j < d.dim; ++j) CHECK(t.maxAccelerations()[j] == a, "acceleration bound " << j); }
  for (unsigned j = 0; j < d.dim; ++j) t.maxAccelerations()[j] = d.acc[j];
  for (unsigned i = 0; i < d.n; ++i) { WP w(d.dim); for (unsigned j = 0; j < d.dim; ++j) w.angles()[j] = d.a[i][j]; w.nominalRates(d.nom[i]); w.duration(d.dur[i]); if (i == 0 && d.c0) for (unsigned j = 0; j < d.dim; ++j) w.rates()[j] = d.r0[j]; if (i + 1 == d.n && d.cf) for (unsigned j = 0; j < d.dim; ++j) w.rates()[j] = d.rf[j]; t.append(w); CHECK(t.size() == i + 1, "size " << t.size()); CHECK(t.last() == w && t.waypoint(i) == w, "appended waypoint " << i); }
}
void near_(const char* what, unsigned j, double t, double got, double want, double tol, const Spec& d) { if (!(std::fabs(got - want) <= tol)) { std::ostringstream o; o.precision(12); o << what << " of joint " << j << " at " << t << " is " << got << ", expected " << want; FAIL(o.str() << " for " << show(d)); } }
// what every interpolated trajectory owes
void judge(pbt::Src& s, Traj& t, const Spec& d, bool linear) {
  double T = t.duration(); double sum = 0; std::vector<double> dur(d.n); for (unsigned i = 0; i < d.n; ++i) { dur[i] = t.waypoint(i).duration(); if (i + 1 < d.n) { sum += dur[i]; CHECK(dur[i] >= d.dur[i], "the duration " << i << " was shortened from " << d.dur[i] << " to " << dur[i]); for (unsigned j = 0; j < d.dim; ++j) CHECK(std::fabs(d.a[i + 1][j] - d.a[i][j]) <= d.nom[i] * dur[i] * (1 + 1e-9), "joint " << j << " exceeds its nominal rate between waypoints " << i << " and " << i + 1 << ": " << show(d)); } }
  CHECK(std::isfinite(T) && T >= sum - 1e-9, "duration " << T << " for segments of " << sum << " in " << show(d));
  for (unsigned i = 0; i < d.n; ++i) for (unsigned j = 0; j < d.dim; ++j) CHECK(t.waypoint(i).angles()[j] == d.a[i][j], "interpolation moved waypoint " << i);
  double hh = std::min({1.0, dur[0] / 5, dur[d.n - 2] / 5}), te = 1e-6 + 5e-14 * std::pow(T / hh, 5), tr = 1e-5 + te / hh - 1e-6, ta = 1e-7 + 5e-14 * std::pow(T / hh, 5) / (hh * hh); ASSUME(te < 1e-3);   // the quintics are fitted in absolute time
  for (unsigned j = 0; j < d.dim; ++j) {
    near_("start angle", j, 0, t(j, 0), d.a[0][j], te, d); near_("end angle", j, T, t(j, T), d.a[d.n - 1][j], te, d);
    near_("start rate", j, 0, t.derivative(j, 0), d.c0 ? d.r0[j] : 0, tr, d); near_("end rate", j, T, t.derivative(j, T), d.cf ? d.rf[j] : 0, tr, d);
  }
  // position and velocity follow from bounded acceleration: over every small step |dv| <= a dt and |dx - v dt| <= a dt^2 / 2
  int N = 400; double off = (double)s.below(1000) / 1000;
  for (unsigned j = 0; j < d.dim; ++j) { double a = d.acc[j] * (1 + 1e-6) + ta, pt = 0, px = t(j, 0), pv = t.derivative(j, 0); for (int k = 0; k <= N; ++k) { double x = k == N ? T : T * (k + off) / (N + 1), v = t(j, x), dv = t.derivative(j, x), acc = t.dderivative(j, x), h = x - pt;
      if (!(std::fabs(acc) <= a)) FAIL("the acceleration of joint " << j << " at " << x << " is " << acc << ", bound " << d.acc[j] << " for " << show(d));
      if (!(std::fabs(dv - pv) <= a * h + tr)) FAIL("the velocity of joint " << j << " jumps from " << pv << " at " << pt << " to " << dv << " at " << x << " (acceleration bound " << d.acc[j] << ") for " << show(d));
      if (!(std::fabs(v - px - pv * h) <= a * h * h / 2 + te)) FAIL("joint " << j << " jumps from " << px << " at " << pt << " to " << v << " at " << x << " (velocity " << pv << ") for " << show(d));
      pt = x; px = v; pv = dv; } }
  // the waypoints are visited (tension), or the middle of every leg between them is (linear), by all joints at once
  std::vector<double> shifts; if (linear) for (double a = 0.0005; a <= T; a *= 2) shifts.push_back(a); else for (int i = 1; i <= 5; ++i) shifts.push_back(i * dur[0] / 10);
  bool ok = false; for (double a : shifts) { bool good = true; double at = a; for (unsigned i = 0; i + 1 < d.n && good; ++i) { if (linear) { if (i > 0 && i + 2 < d.n) { double mid = at + dur[i] / 2; for (unsigned j = 0; j < d.dim && good; ++j) good = mid <= T && std::fabs(t(j, mid) - (d.a[i][j] + d.a[i + 1][j]) / 2) < 1e-6 && std::fabs(t.derivative(j, mid) - (d.a[i + 1][j] - d.a[i][j]) / dur[i]) < 1e-5; } } else if (i > 0) for (unsigned j = 0; j < d.dim && good; ++j) good = at <= T && std::fabs(t(j, at) - d.a[i][j]) < 1e-6; at += dur[i]; } if (good) { ok = true; break; } }
  CHECK(ok, (linear ? "the middle of a leg between waypoints is missed: " : "a waypoint is missed: ") << show(d));
#if !defined(NDEBUG)
  for (double x : {-0.01, T + 0.01}) for (int k = 0; k < 3; ++k) { bool thrown = false; try { k == 0 ? t(0, x) : k == 1 ? t.derivative(0, x) : t.dderivative(0, x); } catch (const StandardException& e) { thrown = e.flag() == OutOfRangeError; } CHECK(thrown, "time " << x << " of " << T << " was answered"); }
#endif
}
void copies(pbt::Src& s, Traj& t, const Spec& d) { double T = t.duration(), x = T * (double)s.below(1000) / 1000; std::vector<double> v; for (unsigned j = 0; j < d.dim; ++j) v.push_back(t(j, x)); { Traj c(t); CHECK(c.size() == d.n && c.duration() == T, "copy has " << c.size() << " waypoints over " << c.duration()); for (unsigned j = 0; j < d.dim; ++j) CHECK(c(j, x) == v[j], "the copy of joint " << j << " differs"); Traj e(d.dim); e = c; CHECK(e(0, x) == v[0], "the assigned trajectory differs"); c.clear(); CHECK(c.size() == 0, "size after clear"); } for (unsigned j = 0; j < d.dim; ++j) CHECK(t(j, x) == v[j], "destroying a copy changed the trajectory"); }
}
PBT_T(manip_linear, 3, 20, "three waypoints or more and a joint changes its velocity") {
  Spec d = gen(s, 2, false); NOTE("linear " << show(d)); pbt::Dirty<Traj> D(0x5a, d.dim, "t"); Traj& t = *D; CHECK(t.duration() == 0, "duration before interpolation " << t.duration()); build(s, d, t); t.linearSplineInterpolation(); judge(s, t, d, true);
  if (s.coin(1, 4)) copies(s, t, d);
  if (s.coin(1, 4)) { t.clear(); CHECK(t.size() == 0 && t.dimension() == d.dim, "after clear: " << t.size()); Spec e = gen(s, 2, false); if (e.dim != d.dim) t.redimension(e.dim); CHECK(t.dimension() == e.dim, "dimension " << t.dimension()); build(s, e, t); t.linearSplineInterpolation(); judge(s, t, e, true); c.label(true, "reused"); }
  bool bends = false; for (unsigned i = 1; i + 1 < d.n; ++i) for (unsigned j = 0; j < d.dim; ++j) if (std::fabs(d.a[i + 1][j] - 2 * d.a[i][j] + d.a[i - 1][j]) > 1e-3) bends = true;
  c.nontrivial(bends); c.label(d.n == 2, "two waypoints"); c.label(d.c0 || d.cf, "end rates given"); c.label(d.dim > 1, "several joints");
}
PBT_T(manip_tension, 3, 20, "a joint changes its velocity") {
  Spec d = gen(s, 5, true); double tau = s.positive(0.5, 10); NOTE("tension " << tau << " " << show(d)); Traj t(d.dim); build(s, d, t); t.tensionSplineInterpolation(tau); judge(s, t, d, false); if (s.coin(1, 4)) copies(s, t, d);
  if (s.coin(1, 5)) { t.linearSplineInterpolation(); c.label(true, "interpolated again"); CHECK(std::fabs(t(0, t.duration()) - d.a[d.n - 1][0]) < 1e-6, "second interpolation ends at " << t(0, t.duration())); }
  bool bends = false; for (unsigned i = 1; i + 1 < d.n; ++i) for (unsigned j = 0; j < d.dim; ++j) if (std::fabs(d.a[i + 1][j] - 2 * d.a[i][j] + d.a[i - 1][j]) > 1e-3) bends = true; c.nontrivial(bends); c.label(d.c0 || d.cf, "end rates given"); c.label(d.dim > 1, "several joints");
}
PBT(manip_refused, 2, "always: an unusable set of waypoints") {
  Spec d = gen(s, 5, true); d.n = 5 + (unsigned)s.below(2); while (d.a.size() < d.n) { d.a.push_back(d.a[0]); d.nom.push_back(1); d.dur.push_back(1); } for (double& x : d.dur) if (x == 0) x = 1; unsigned kind = (unsigned)s.below(4); bool linear = s.coin();
#if defined(NDEBUG)
  linear = true; if (kind == 3) kind = 0;
#endif
  NOTE("kind " << kind << (linear ? " linear " : " tension ") << show(d)); Traj t(d.dim); int want = ConfigurationError, got = -1;
  try {
    if (kind == 0) { unsigned few = linear ? (unsigned)s.below(2) : (unsigned)s.below(5); d.n = few; build(s, d, t); }
    else if (kind == 1) { d.nom[s.below(d.n - 1)] = s.coin() ? 0 : -0.5; build(s, d, t); }
    else if (kind == 2) { unsigned i = (unsigned)s.below(d.n - 1); d.a[i + 1] = d.a[i]; d.dur[i] = 0; build(s, d, t); }
    else { want = InvalidInputError; build(s, d, t); WP w(d.dim + 1 + (unsigned)s.below(2)); t.append(w); }
    if (kind < 3) { if (linear) t.linearSplineInterpolation(); else t.tensionSplineInterpolation(2); }
  } catch (const StandardException& e) { got = e.flag(); }
  CHECK(got == want, "flag " << got << ", expected " << want << " for " << show(d));
#if !defined(NDEBUG)
  bool thrown = false; try { t.waypoint(t.size() + (unsigned)s.below(3)); } catch (const StandardException& e) { thrown = e.flag() == OutOfRangeError; } CHECK(thrown, "a waypoint beyond the end was answered");
#endif
  c.nontrivial(); c.label(kind == 0, "too few"); c.label(kind == 1, "no rate"); c.label(kind == 2, "no duration");
}
PBT_T(manip_slow, 1, 20, "always: a trajectory with a slow nominal rate") {
  // any rate above zero will do: it makes the move as long as the longest way at that rate
  unsigned n = 5, dim = (unsigned)s.range(1, 2); Traj t(dim); t.maxAccelerations(1); std::vector<double> rate, want; double v = std::pow(10.0, -(double)s.range(1, 9)); std::vector<std::vector<double>> a(n, std::vector<double>(dim)); int last = 0;
  for (unsigned i = 0; i < n; ++i) { double far = 0; for (unsigned j = 0; j < dim; ++j) { int k = (int)s.centred(-8, 8); if (i && j == 0 && k == last) ++k; if (j == 0) last = k; a[i][j] = k * v; if (i) far = std::max(far, std::fabs(a[i][j] - a[i - 1][j])); } if (i) want.push_back(far / v); }
  for (unsigned i = 0; i < n; ++i) { WP w(dim); for (unsigned j = 0; j < dim; ++j) w.angles()[j] = a[i][j]; w.nominalRates(v); t.append(w); } bool tension = s.coin(); NOTE(n << " waypoints at rates of " << v << (tension ? " tension" : " linear")); for (auto& q : a) for (double x : q) NOTE(x); try { if (tension) t.tensionSplineInterpolation(2); else t.linearSplineInterpolation(); } catch (const StandardException& e) { FAIL("a nominal rate of " << v << " was refused: " << e.what()); }
  double sum = 0; for (double x : want) sum += x; CHECK(t.duration() >= sum * (1 - 1e-9), "the trajectory takes " << t.duration() << ", at the nominal rate it takes " << sum); for (unsigned j = 0; j < dim; ++j) CHECK(std::fabs(t(j, 0) - a[0][j]) <= 1e-3 * v + 1e-7 && std::fabs(t(j, t.duration()) - a[n - 1][j]) <= 1e-3 * v + 1e-7, "the trajectory of joint " << j << " runs from " << t(j, 0) << " to " << t(j, t.duration()) << ", not from " << a[0][j] << " to " << a[n - 1][j]); c.nontrivial();
}
PBT(manip_waypoint, 2, "two joints or more, different angles") {
  unsigned dim = (unsigned)s.range(1, 4); WP w(dim); std::vector<double> a(dim, 0), r(dim, 0), x(dim, 0), n(dim, 1); std::string name; double dur = 0; bool rc = false, ac = false;
  auto check = [&](const WP& v, const char* what) { CHECK(v.dimension() == dim, what << ": dimension " << v.dimension()); CHECK(v.duration() == dur && v.name() == name && v.rates_configured() == rc && v.accelerations_configured() == ac, what << ": duration " << v.duration() << " name " << v.name() << " flags " << v.rates_configured() << v.accelerations_configured()); WP& m = const_cast<WP&>(v); for (unsigned j = 0; j < dim; ++j) CHECK(v.angles()[j] == a[j] && v.rates()[j] == r[j] && v.accelerations()[j] == x[j] && m.nominalRates()[j] == n[j], what << ": joint " << j); };
  check(w, "new waypoint"); int ops = s.len(1, 12);
  for (int k = 0; k < ops; ++k) { unsigned j = (unsigned)s.below(dim); double v = s.coin() ? (double)s.centred(-9, 9) : s.real(9);
    switch (s.below(8)) { case 0: w.angles()[j] = a[j] = v; break; case 1: w.rates()[j] = r[j] = v; rc = true; break; case 2: w.accelerations()[j] = x[j] = v; ac = true; break; case 3: w.nominalRates()[j] = n[j] = v; break; case 4: w.nominalRates(v); for (double& q : n) q = v; break; case 5: w.duration(v); dur = v; break; case 6: name = s.str("abc", 1, 4); w.name(name); break;
      default: if (s.coin(1, 3)) { dim = (unsigned)s.range(1, 4); w.redimension(dim); a.assign(dim, 0); r.assign(dim, 0); x.assign(dim, 0); n.clear(); for (unsigned q = 0; q < dim; ++q) n.push_back(w.nominalRates()[q]); } else { WP cp(w); check(cp, "copy"); WP as; as = cp; check(as, "assigned"); for (unsigned q = 0; q < dim; ++q) cp.angles()[q] += 1; check(w, "after changing a copy"); } }
    check(w, "after an operation"); }
  WP o(dim); std::vector<double> b(a); for (unsigned j = 0; j < dim; ++j) if (s.coin(1, 3)) b[j] += s.coin() ? (double)s.centred(-2, 2) : s.real(0.03); for (unsigned j = 0; j < dim; ++j) o.angles()[j] = b[j]; double m = 0; for (unsigned j = 0; j < dim; ++j) m = std::max(m, std::fabs(a[j] - b[j]));
  CHECK((w == o) == (a == b) && (w != o) == (a != b) && (o == w) == (a == b), "comparison of waypoints, largest difference " << m); CHECK(w.approx(o) == (m <= 0.01), "approx with difference " << m); double eps = s.positive(0.001, 2); CHECK(w.approx(o, eps) == (m <= eps), "approx within " << eps << " with difference " << m);
  std::ostringstream out; out << w; std::string t = out.str(); CHECK((t.find("Name") != std::string::npos) == (name != ""), "name printed: " << t); CHECK((t.find("  Rates") != std::string::npos) == rc && (t.find("Accelerations") != std::string::npos) == ac && t.find("Angles") != std::string::npos && t.find("Nominal Rates") != std::string::npos, "printed " << t);
  { std::string a0 = t.substr(t.find("Angles") + std::string("Angles               :").size()); for (char& ch : a0) if (ch == '[' || ch == ']') ch = ' '; std::istringstream in(a0); for (unsigned j = 0; j < dim; ++j) { double v = 1e9; in >> v; CHECK(std::fabs(v - a[j]) <= 0.0051, "angle " << j << " printed as " << v << " instead of " << a[j] << " in " << t); } }
  c.nontrivial(dim > 1 && m > 0); c.label(m > 0 && m < 0.02, "nearly equal");
}
PBT_MAIN
