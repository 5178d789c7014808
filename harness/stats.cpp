// Cumulative statistics, covariance ellipsoids, differential drive kinematics.
#include <cmath>
#include <pbt.hpp>
#include <ecl/statistics/cumulative_statistics.hpp>
#include <ecl/linear_algebra.hpp>
#include <ecl/statistics/covariance_ellipsoid.hpp>
#include <ecl/mobile_robot/differential_drive.hpp>
using namespace ecl;
namespace {
const double PI = std::acos(-1.0);
template <typename T> void cumulative(pbt::Src& s, pbt::Ctx& c) {
  pbt::Dirty<CumulativeStatistics<T>> d(s.below(256)); CumulativeStatistics<T>& st = *d; std::vector<T> v; int ops = (int)s.len(1, s.coin(1, 10) ? 300 : 25), clears = 0; size_t most = 0; double off = s.of<double>({0, 1, 100, -1e4}), m = s.of<double>({1, 10, 0.01});
  if (sizeof(T) == 8 && s.coin(1, 4)) off = 1e8;
  const double eps = std::numeric_limits<T>::epsilon();
  for (int i = 0; i <= ops; ++i) {
    if (i > 0) { if (s.coin(1, 12)) { st.clear(); v.clear(); ++clears; NOTE("clear"); } else { T x = (T)(off + (s.coin(1, 5) ? 0 : s.real(m))); st.push_back(x); v.push_back(x); NOTE("push " << x); } }
    size_t n = v.size(); most = std::max(most, n); long double mean = 0, var = 0, big = 0; for (T x : v) { mean += x; big = std::max(big, (long double)std::fabs((double)x)); } if (n) mean /= n; for (T x : v) var += (x - mean) * (x - mean); if (n > 1) var /= n - 1;
    CHECK(st.size() == (T)n, "size " << st.size() << " after " << n << " values"); CHECK(std::fabs((double)(st.mean() - mean)) <= 4 * eps * (n + 2) * (double)big, "mean " << st.mean() << " of " << n << " values, expected " << (double)mean);
    double tol = 8 * eps * (n + 2) * (double)(var + std::sqrt((double)var) * big) + 20 * (double)big * (double)big * eps * eps * (n + 2); CHECK(std::fabs((double)(st.variance() - var)) <= tol, "variance " << st.variance() << " of " << n << " values, expected " << (double)var);
    if (n < 2) CHECK(st.variance() == 0, "variance " << st.variance() << " of " << n << " values");
  }
  c.nontrivial(most > 2); c.label(clears > 0, "cleared"); c.label(most > 100, "over 100 values");
}
template <typename T> void ellipse2(pbt::Src& s, pbt::Ctx& c) {
  typedef Eigen::Matrix<T, 2, 2> Mat; typedef Eigen::Matrix<T, 2, 1> Vec; const double eps = std::numeric_limits<T>::epsilon();
  pbt::Dirty<CovarianceEllipsoid<T, 2>> d(s.below(256)); CovarianceEllipsoid<T, 2>& e = *d; CHECK(e.lengths() == Vec::Ones() && e.axes() == Mat::Identity(), "a fresh ellipse is not the unit circle");
  int k = (int)s.range(1, 3); for (int i = 0; i < k; ++i) {
    double l0 = std::pow(10.0, (double)s.centred(sizeof(T) == 8 ? -40 : -20, sizeof(T) == 8 ? 40 : 20) / 10), ratio = s.coin(1, 8) ? 1 : std::pow(10.0, (double)s.below(31) / (sizeof(T) == 8 ? 10 : 20)), l1 = l0 / ratio, ang = s.coin(1, 4) ? (double)s.centred(-4, 4) * PI / 4 : s.coin(1, 4) ? (double)s.centred(-4, 4) * PI / 2 + s.real(1e-4) : s.real(PI);
    double ca = std::cos(ang), sa = std::sin(ang); Mat M; M << (T)(l0 * l0 * ca * ca + l1 * l1 * sa * sa), (T)((l0 * l0 - l1 * l1) * sa * ca), 0, (T)(l0 * l0 * sa * sa + l1 * l1 * ca * ca);
    if (s.coin(1, 5)) { M(0, 1) = (T)((s.coin() ? 1 : -1) * l0 * l0 * std::pow(10.0, -(double)s.range(4, 14))); c.label("tiny covariance"); } if (s.coin(1, 6)) { M(0, 1) = 0; c.label("uncorrelated"); } if (s.coin(1, 6)) { M(0, 0) = M(1, 1) = (T)(l0 * l0); M(0, 1) = (T)(l0 * l0 * s.real(0.9)); c.label("equal variances"); }
    if (s.coin(1, 10)) { M(0, 1) = 0; M(0, 0) = M(1, 1) = (T)(l0 * l0); int w = (int)s.below(2); M(w, w) = s.coin() ? (T)((double)M(w, w) * (1 + std::pow(10.0, -(double)s.range(1, sizeof(T) == 8 ? 13 : 5)))) : std::nextafter(M(w, w), (T)1e9); c.label("nearly a circle"); } M(1, 0) = M(0, 1); typedef long double L; L a = M(0, 0), b = M(0, 1), dd = M(1, 1), h = (a - dd) / 2, r = std::sqrt(h * h + b * b), e0 = (a + dd) / 2 + r, e1 = (a * dd - b * b) / e0; ASSUME(e1 > 0 && e0 / e1 < (sizeof(T) == 8 ? 1e7 : 2e3));
    NOTE("covariance [" << M(0, 0) << " " << M(0, 1) << "; " << M(1, 0) << " " << M(1, 1) << "]");
    if (s.coin()) e.compute(M); CovarianceEllipsoid<T, 2> built(M); bool use_built = s.coin(); if (!use_built) e.compute(M); CovarianceEllipsoid<T, 2>& x = use_built ? built : e;
    double tol = 40 * eps * (double)(e0 / e1) + 1e-9; if (sizeof(T) == 4) tol += 1e-4;
    CHECK(std::fabs((double)(x.lengths()(0) - std::sqrt(e0))) <= tol * (double)std::sqrt(e0) && std::fabs((double)(x.lengths()(1) - std::sqrt(e1))) <= tol * (double)std::sqrt(e1), "axis lengths " << x.lengths().transpose() << " expected " << (double)std::sqrt(e0) << " " << (double)std::sqrt(e1));
    Eigen::Matrix2d A = x.axes().template cast<double>(), Md = M.template cast<double>(); CHECK(std::fabs(A.col(0).norm() - 1) <= tol && std::fabs(A.col(1).norm() - 1) <= tol, "axes are not unit vectors:\n" << A);
    for (int j = 0; j < 2; ++j) { double l = (double)(j ? e1 : e0); CHECK((Md * A.col(j) - l * A.col(j)).norm() <= tol * (double)e0, "axis " << j << " (" << A.col(j).transpose() << ") is not an axis of the ellipse of [" << Md(0, 0) << " " << Md(0, 1) << "; " << Md(1, 1) << "]"); }
    if (b == 0 && a != dd) CHECK(std::fabs(std::fabs(A(a > dd ? 0 : 1, 0)) - 1) <= 1e-6, "the major axis " << A.col(0).transpose() << " is not that of the larger of the variances " << (double)a << " and " << (double)dd);
    if (e0 / e1 > 1 + 1e-2) CHECK(std::fabs(A.col(0).dot(A.col(1))) <= tol * (double)(e0 / (e0 - e1)), "axes are not perpendicular:\n" << A);
    double rot = x.rotation(); CHECK(std::fabs(std::cos(rot) - A(0, 0)) <= 1e-6 + tol && std::fabs(std::sin(rot) - A(1, 0)) <= 1e-6 + tol, "rotation " << rot << " is not the direction of the major axis " << A.col(0).transpose());
    L det = a * dd - b * b; double ix = (double)std::sqrt(det / dd), iy = (double)std::sqrt(det / a); Vec in = x.intercepts(); double it = (sizeof(T) == 4 ? 5e-3 : 1e-8) * (double)(e0 / e1); CHECK(std::fabs(in(0) - ix) <= it * ix && std::fabs(in(1) - iy) <= it * iy, "intercepts " << in.transpose() << " expected " << ix << " " << iy);
    c.nontrivial(e0 / e1 > 1.01 && b != 0);
  }
}
template <typename T> void ellipse3(pbt::Src& s, pbt::Ctx& c) {
  typedef Eigen::Matrix<T, 3, 3> Mat; typedef Eigen::Matrix<T, 3, 1> Vec;
  pbt::Dirty<CovarianceEllipsoid<T, 3>> d(s.below(256)); CovarianceEllipsoid<T, 3>& e = *d; CHECK(e.lengths() == Vec::Ones() && e.axes() == Mat::Identity(), "a fresh ellipsoid is not the unit sphere");
  double l[3]; l[0] = std::pow(10.0, (double)s.centred(-10, 10) / 10); l[1] = l[0] * (1.2 + (double)s.below(60) / 10); l[2] = l[1] * (1.2 + (double)s.below(60) / 10); for (int i = 2; i > 0; --i) std::swap(l[i], l[s.below(i + 1)]);
  Eigen::Vector3d ax((double)s.centred(-10, 10), (double)s.centred(-10, 10), (double)s.centred(-10, 10)); if (ax.norm() < .5) ax = Eigen::Vector3d::UnitX(); ax.normalize(); Eigen::Matrix3d R = Eigen::AngleAxisd(s.coin(1, 4) ? 0 : s.real(PI), ax).toRotationMatrix(); Eigen::Matrix3d W = R * Eigen::Vector3d(l[0] * l[0], l[1] * l[1], l[2] * l[2]).asDiagonal() * R.transpose(); Mat M = W.template cast<T>(); for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) M(i, j) = M(j, i);
  bool sort = s.coin(2, 3); NOTE("lengths " << l[0] << " " << l[1] << " " << l[2] << " sorted " << sort); CovarianceEllipsoid<T, 3> built(M, sort); bool ub = s.coin(); if (!ub) e.compute(M, sort); CovarianceEllipsoid<T, 3>& x = ub ? built : e;
  std::vector<double> want(l, l + 3), got{x.lengths()(0), x.lengths()(1), x.lengths()(2)}; std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); double tol = sizeof(T) == 8 ? 1e-8 : 5e-3; for (int i = 0; i < 3; ++i) CHECK(std::fabs(got[i] - want[i]) <= tol * want[2], "axis lengths " << x.lengths().transpose() << " expected some order of " << l[0] << " " << l[1] << " " << l[2]);
  Eigen::Matrix3d A = x.axes().template cast<double>(), Md = M.template cast<double>(); for (int j = 0; j < 3; ++j) { double len = x.lengths()(j); CHECK((Md * A.col(j) - len * len * A.col(j)).norm() <= 4 * tol * want[2] * want[2] * A.col(j).norm() && A.col(j).norm() > 1e-3, "axis " << j << " (" << A.col(j).transpose() << ") does not belong to length " << len); if (sort) CHECK(std::fabs(A.col(j).norm() - 1) <= tol, "axis " << j << " has length " << A.col(j).norm()); for (int i = 0; i < j; ++i) CHECK(std::fabs(A.col(i).dot(A.col(j))) <= 50 * tol * A.col(i).norm() * A.col(j).norm(), "axes " << i << " and " << j << " are not perpendicular"); }
  if (sort) CHECK(A.col(0).cross(A.col(1)).dot(A.col(2)) > 0.9, "the axes are not right handed: determinant " << A.determinant());
  c.nontrivial(); c.label(sort, "right handed");
}
}
PBT(stat_cumulative, 3, "three values or more") { if (s.coin(2, 3)) cumulative<double>(s, c); else cumulative<float>(s, c); }
PBT(stat_ellipse, 3, "correlated with different axis lengths") { if (s.coin(2, 3)) ellipse2<double>(s, c); else ellipse2<float>(s, c); }
PBT(stat_ellipsoid, 2, "every case: three different lengths") { if (s.coin(2, 3)) ellipse3<double>(s, c); else ellipse3<float>(s, c); }
PBT(drive_updates, 3, "both wheels move") {
  double bias = s.positive(0.01, 3), radius = s.positive(0.01, 1); DifferentialDrive::Kinematics k(bias, radius); auto near = [](double a, double b, double m) { return std::fabs(a - b) <= 1e-12 * (1 + m); }; auto turn = [](double a, double b, double m) { return std::fabs(std::remainder(a - b, 2 * PI)) <= 1e-11 * (1 + m); };
  double dl = s.real(s.of<double>({1, 0.01, 50})), dr = s.coin(1, 4) ? dl : s.coin(1, 4) ? -dl : s.real(s.of<double>({1, 0.01, 50})); Eigen::Vector3d p = k.poseUpdateFromWheelDifferential(dl, dr); double ds = radius * (dl + dr) / 2, dw = radius * (dr - dl) / bias; NOTE("axle " << bias << " wheel " << radius << " turns " << dl << " " << dr << " -> " << p.transpose());
  CHECK(near(p(0), ds, std::fabs(dl) + std::fabs(dr)) && p(1) == 0 && turn(p(2), dw, std::fabs(dw)) && std::fabs(p(2)) <= PI + 1e-12, "wheel turns " << dl << "," << dr << " move the robot by " << p.transpose() << " expected " << ds << " 0 " << dw);
  double v = s.real(3), w = s.real(8); Eigen::Vector2d r = k.baseToWheelVelocities(v, w); CHECK(near((r(0) + r(1)) * radius / 2, v, std::fabs(w)) && near((r(1) - r(0)) * radius / bias, w, std::fabs(v) / bias), "wheel rates " << r.transpose() << " do not give speed " << v << " and turn rate " << w);
  Eigen::Vector3d q = k.poseUpdateFromWheelDifferential(r(0), r(1)); CHECK(near(q(0), v, std::fabs(w)) && q(1) == 0 && turn(q(2), w, std::fabs(w) + std::fabs(v) / bias), "the wheel rates for (" << v << "," << w << ") move the robot by " << q.transpose());
  Eigen::Vector3d b = k.poseUpdateFromBaseDifferential(v, w); CHECK(b(0) == v && b(1) == 0 && turn(b(2), w, std::fabs(w)) && std::fabs(b(2)) <= PI + 1e-12, "base motion (" << v << "," << w << ") updates the pose by " << b.transpose()); c.nontrivial(dl != 0 && dr != 0); c.label(std::fabs(dw) > PI, "more than half a turn");
}
PBT(drive_between_poses, 3, "the poses differ in position and heading") {
  double m = s.of<double>({1, 0.01, 100}); Eigen::Vector3d a(s.real(m), s.real(m), s.real(PI)), b; double f = 1; int how = (int)s.below(3); if (how == 0) b = Eigen::Vector3d(s.real(m), s.real(m), s.real(PI)); else { f = s.real(m); double ang = a(2) + (how == 1 ? 0 : s.real(1.5)); b = Eigen::Vector3d(a(0) + f * std::cos(ang), a(1) + f * std::sin(ang), s.real(PI)); }
  Eigen::Vector2d d = DifferentialDrive::Kinematics::PoseToBaseDifferential(a, b); NOTE("from " << a.transpose() << " to " << b.transpose() << ": " << d.transpose()); double dx = b(0) - a(0), dy = b(1) - a(1), dist = std::hypot(dx, dy), fwd = dx * std::cos(a(2)) + dy * std::sin(a(2));
  CHECK(std::fabs(std::fabs(d(0)) - dist) <= 1e-12 * (1 + 10 * m), "distance " << d(0) << " between poses " << dist << " apart"); if (std::fabs(fwd) > 1e-9 * (1 + m)) CHECK((d(0) < 0) == (fwd < 0), "the move is " << (fwd < 0 ? "backwards" : "forwards") << " but its distance is " << d(0)); CHECK(std::fabs(std::remainder(d(1) - (b(2) - a(2)), 2 * PI)) <= 1e-12 && std::fabs(d(1)) <= PI + 1e-12, "turn " << d(1) << " between headings " << a(2) << " and " << b(2)); c.nontrivial(dist > 0 && b(2) != a(2)); c.label(fwd < 0, "backwards"); c.label(std::fabs(b(2) - a(2)) > PI, "turn across the cut");
}
PBT_MAIN
