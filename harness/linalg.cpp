// Rigid frame interpolation and conversion, matrix and frame formatters.
#include <cmath>
#include <iomanip>
#include <pbt.hpp>
#include <ecl/config/macros.hpp>
#include <ecl/linear_algebra.hpp>
#include <ecl/linear_algebra/sophus/interpolators.hpp>
#include <ecl/linear_algebra/sophus/helpers.hpp>
#include <ecl/linear_algebra/sophus/formatters.hpp>
#include <ecl/formatters.hpp>
using Sophus::SE3f; using Sophus::SE2f; using Eigen::Vector3f; using Eigen::Matrix4d;
namespace {
const double PI = std::acos(-1.0);
Matrix4d M(const SE3f& T) { Matrix4d m = Matrix4d::Identity(); m.block<3, 3>(0, 0) = T.unit_quaternion().toRotationMatrix().cast<double>(); m.block<3, 1>(0, 3) = T.translation().cast<double>(); return m; }
Matrix4d inv(const Matrix4d& a) { Matrix4d r = Matrix4d::Identity(); r.block<3, 3>(0, 0) = a.block<3, 3>(0, 0).transpose(); r.block<3, 1>(0, 3) = -(r.block<3, 3>(0, 0) * a.block<3, 1>(0, 3)); return r; }
double far(const Matrix4d& a, const Matrix4d& b) { return (a - b).cwiseAbs().maxCoeff(); }
std::string show(const SE3f& T) { std::ostringstream o; o << "t(" << T.translation().transpose() << ") q(" << T.unit_quaternion().coeffs().transpose() << ")"; return o.str(); }
Vector3f vec(pbt::Src& s, double m) { float x = (float)s.real(m), y = (float)s.real(m), z = (float)s.real(m); return Vector3f(x, y, z); }
SE3f rot(pbt::Src& s, double maxangle, const Vector3f& t) { Eigen::Vector3d ax((double)s.centred(-10, 10), (double)s.centred(-10, 10), (double)s.centred(-10, 10)); if (ax.norm() < 0.5) ax = Eigen::Vector3d::UnitZ(); ax.normalize(); double a = s.coin(1, 8) ? 0.0 : s.real(maxangle); return SE3f(Eigen::Quaternionf(Eigen::AngleAxisf((float)a, ax.cast<float>())), t); }
SE3f yaw(double a, const Vector3f& t) { return SE3f(Eigen::Quaternionf(Eigen::AngleAxisf((float)a, Vector3f::UnitZ())), t); }
double T_of(pbt::Src& s) { return s.coin(1, 4) ? (double)s.below(2) : (double)s.centred(-50, 200) / 100; }
// R^n by repeated multiplication
Matrix4d power(const Matrix4d& a, int n) { Matrix4d r = Matrix4d::Identity(); for (int i = 0; i < n; ++i) r = a * r; return r; }
double rotation_angle(const Matrix4d& a) { double c = (a(0, 0) + a(1, 1) + a(2, 2) - 1) / 2; return std::acos(std::max(-1.0, std::min(1.0, c))); }
}
PBT(frame_interpolate, 4, "the frames differ in rotation and translation") {
  double m = s.of<double>({1, 20, 300}); SE3f A = rot(s, 3, vec(s, m)), R = rot(s, 2.9, vec(s, m)), B = R * A; NOTE("from " << show(A) << " to " << show(B));
  Sophus::Interpolator<SE3f> in(A, B); double tol = 3e-4 * (1 + 3 * m); Matrix4d a = M(A), b = M(B), rel = b * inv(a); double ang = rotation_angle(rel); ASSUME(ang < 3.0);
  CHECK(far(M(in(0.0)), a) <= tol, "at 0 the interpolation is not the first frame: " << show(in(0.0))); CHECK(far(M(in(1.0)), b) <= tol, "at 1 the interpolation is not the second frame: " << show(in(1.0)));
  int n = (int)s.range(2, 6); Matrix4d step = M(in(1.0 / n)) * inv(a);
  CHECK(far(power(step, n), rel) <= 4 * n * tol, "the motion over 1/" << n << " repeated " << n << " times misses the motion between the frames by " << far(power(step, n), rel));
  CHECK(std::fabs(rotation_angle(step) - ang / n) <= 4e-3, "a step of 1/" << n << " turns by " << rotation_angle(step) << " of " << ang);
  double t = T_of(s), u = T_of(s); Matrix4d mt = M(in(t)) * inv(a), mu = M(in(u)) * inv(a), mtu = M(in(t + u)) * inv(a); CHECK(far(mt * mu, mtu) <= 12 * tol, "motions over " << t << " and " << u << " do not add up");
  c.nontrivial(ang > 1e-3 && (A.translation() - B.translation()).norm() > 1e-3); c.label(ang > 2, "turn above 2 rad"); c.label(ang < 1e-6, "no turn");
}
PBT(frame_interpolate_plane, 3, "the frames differ in rotation and translation") {
  double m = s.of<double>({1, 20}); SE3f G = m > 1 || s.coin() ? SE3f() : rot(s, 3, vec(s, m)); Vector3f ta = vec(s, m), tb = vec(s, m); tb.z() = ta.z();
  double ya = s.real(PI), turn = s.coin(1, 6) ? 0 : s.real(2.9); SE3f P = yaw(ya, ta), Q = yaw(ya + turn, tb), A = P * G, B = Q * G; NOTE("from " << show(A) << " to " << show(B));
#if !defined(NDEBUG) && !defined(ECL_DISABLE_EXCEPTIONS)
  { double dz = std::fabs((double)(A * B.inverse()).translation().z()); ASSUME(dz < 0.7e-5); SE3f off = yaw(ya + turn, Vector3f(tb.x(), tb.y(), tb.z() + (float)(s.coin() ? -1 : 1) * s.of<float>({0.01f, 0.5f, 5.f}))) * G; bool ok = false; try { Sophus::PlanarInterpolator p(A, off); } catch (const ecl::StandardException& e) { ok = e.flag() == ecl::InvalidArgError; } CHECK(ok, "frames in different planes must be refused as invalid arguments: " << show(A) << " and " << show(off)); }
#endif
  Sophus::PlanarInterpolator in(A, B); double tol = 4e-4 * (1 + 4 * m); Matrix4d a = M(A), b = M(B);
  CHECK(far(M(in(0.0)), a) <= tol, "at 0 the planar interpolation is not the first frame: " << show(in(0.0))); CHECK(far(M(in(1.0)), b) <= tol, "at 1 the planar interpolation is not the second frame: " << show(in(1.0)));
  Matrix4d rel = b * inv(a); int n = (int)s.range(2, 6); Matrix4d step = M(in(1.0 / n)) * inv(a); CHECK(far(power(step, n), rel) <= 4 * n * tol, "the planar motion over 1/" << n << " repeated " << n << " times misses the motion between the frames by " << far(power(step, n), rel));
  double t = T_of(s); Matrix4d mt = M(in(t)) * inv(a); CHECK(std::fabs(mt(2, 3)) <= tol && std::fabs(mt(2, 2) - 1) <= 1e-3, "the interpolation at " << t << " leaves the plane: height " << mt(2, 3) << " tilt " << mt(2, 2));
  double u = T_of(s); CHECK(far(mt * (M(in(u)) * inv(a)), M(in(t + u)) * inv(a)) <= 12 * tol, "planar motions over " << t << " and " << u << " do not add up"); CHECK(std::fabs(rotation_angle(step) - std::fabs(turn) / n) <= 4e-3, "a planar step of 1/" << n << " turns by " << rotation_angle(step) << " of " << turn);
  c.nontrivial(std::fabs(turn) > 1e-3 && (ta - tb).norm() > 1e-3); c.label(turn < 0, "turning clockwise");
}
PBT(frame_interpolate_slide, 3, "the frames differ in rotation and position") {
  double m = s.of<double>({1, 20}); SE3f A = rot(s, 3, vec(s, m)), R = rot(s, 2.9, vec(s, m)), B = R * A; NOTE("from " << show(A) << " to " << show(B)); Sophus::SlidingInterpolator in(A, B); Matrix4d a = M(A), b = M(B); double tol = 3e-4 * (1 + 4 * m); ASSUME(rotation_angle(b * inv(a)) < 3.0);
  CHECK(far(M(in(0.0)), a) <= tol && far(M(in(1.0)), b) <= tol, "the sliding interpolation misses its ends: " << show(in(0.0)) << " and " << show(in(1.0)));
  double t = T_of(s); Matrix4d g = inv(M(in(t))), ia = inv(a), ib = inv(b); Eigen::Vector3d want = ia.block<3, 1>(0, 3) + t * (ib.block<3, 1>(0, 3) - ia.block<3, 1>(0, 3)), got = g.block<3, 1>(0, 3);
  CHECK((got - want).cwiseAbs().maxCoeff() <= tol, "at " << t << " the position is " << got.transpose() << " not on the straight line at " << want.transpose());
  Matrix4d r1 = M(in(t)), r2 = M(Sophus::Interpolator<SE3f>(A, B)(t)); CHECK((r1.block<3, 3>(0, 0) - r2.block<3, 3>(0, 0)).cwiseAbs().maxCoeff() <= 2e-3, "the rotation at " << t << " is not the interpolated one");
  c.nontrivial(rotation_angle(b * inv(a)) > 1e-3 && (want - ia.block<3, 1>(0, 3)).norm() > 1e-3);
}
PBT(frame_interpolate_2d, 2, "the frames differ in rotation and position") {
  double m = s.of<double>({1, 20}); double ya = s.real(PI), turn = s.real(2.9); Eigen::Vector2f ta((float)s.real(m), (float)s.real(m)), tb((float)s.real(m), (float)s.real(m)); SE2f A((float)ya, ta), B((float)(ya + turn), tb); Sophus::Interpolator<SE2f> in(A, B); double tol = 3e-4 * (1 + 4 * m);
  auto mat = [](const SE2f& T) { Matrix4d r = Matrix4d::Identity(); double w = T.so2().log(); r(0, 0) = r(1, 1) = std::cos(w); r(1, 0) = std::sin(w); r(0, 1) = -r(1, 0); r(0, 3) = T.translation().x(); r(1, 3) = T.translation().y(); return r; };
  Matrix4d a = mat(A), b = mat(B); CHECK(far(mat(in(0.0)), a) <= tol && far(mat(in(1.0)), b) <= tol, "the planar group interpolation misses its ends"); int n = (int)s.range(2, 6); Matrix4d step = mat(in(1.0 / n)) * inv(a); CHECK(far(power(step, n), b * inv(a)) <= 4 * n * tol, "the motion over 1/" << n << " repeated misses the whole"); c.nontrivial(std::fabs(turn) > 1e-3 && (ta - tb).norm() > 1e-3);
}
PBT(frame_convert, 3, "turned and away from the origin") {
  double m = s.of<double>({1, 50}), th = s.real(3.1); Vector3f p((float)s.real(m), (float)s.real(m), (float)th); NOTE("pose " << p.transpose());
  SE3f T = s.coin() ? Sophus::toPose3D(p) : ecl::Converter<SE3f, Vector3f>()(p); Matrix4d want = Matrix4d::Identity(); want(0, 0) = want(1, 1) = std::cos((double)p.z()); want(1, 0) = std::sin((double)p.z()); want(0, 1) = -want(1, 0); want(0, 3) = p.x(); want(1, 3) = p.y();
  CHECK(far(M(T), want) <= 1e-5 * (1 + m), "the frame of " << p.transpose() << " is " << show(T)); Vector3f back = s.coin() ? Sophus::toPose2D(T) : ecl::Converter<Vector3f, SE3f>()(T); CHECK((back - p).cwiseAbs().maxCoeff() <= 1e-5f * (float)(1 + m), "planar pose " << p.transpose() << " comes back as " << back.transpose());
  SE3f lifted(T.unit_quaternion(), Vector3f(p.x(), p.y(), (float)s.real(m))); Vector3f flat = Sophus::toPose2D(lifted); CHECK((flat - p).cwiseAbs().maxCoeff() <= 1e-5f * (float)(1 + m), "the height changes the planar pose: " << flat.transpose());
  Vector3f full = vec(s, m); SE3f any = rot(s, 3, full); Vector3f pl = Sophus::toPose2D(any); Matrix4d am = M(any); double hx = am(0, 0), hy = am(1, 0); CHECK(pl.x() == full.x() && pl.y() == full.y(), "planar position " << pl.transpose()); if (std::hypot(hx, hy) > 1e-2) CHECK(std::fabs(std::remainder(pl.z() - std::atan2(hy, hx), 2 * PI)) <= 1e-3, "planar heading " << pl.z() << " of " << show(any));
  float fx = (float)s.real(m), fy = (float)s.real(m), tx = (float)s.real(m), ty = (float)s.real(m); auto sp = Sophus::points2DToSophusTransform(fx, fy, tx, ty); Matrix4d pm = M(*sp); double dx = (double)tx - fx, dy = (double)ty - fy, l = std::hypot(dx, dy);
  CHECK(pm(0, 3) == fx && pm(1, 3) == fy && pm(2, 3) == 0, "the frame between two points starts at " << pm(0, 3) << "," << pm(1, 3)); if (l > 1e-3 * (1 + m)) CHECK(std::fabs(pm(0, 0) - dx / l) <= 2e-3 && std::fabs(pm(1, 0) - dy / l) <= 2e-3 && std::fabs(pm(2, 2) - 1) <= 1e-5, "the frame from (" << fx << "," << fy << ") to (" << tx << "," << ty << ") points along (" << pm(0, 0) << "," << pm(1, 0) << ")");
  Sophus::PlanarRotation2Quaternion pq; Eigen::Quaternionf q1 = pq((float)th), q2; pq.convert((float)th, q2); for (const Eigen::Quaternionf& q : {q1, q2}) { Eigen::Matrix3d r = q.toRotationMatrix().cast<double>(); CHECK(std::fabs(q.norm() - 1) <= 1e-5 && (r - want.block<3, 3>(0, 0)).cwiseAbs().maxCoeff() <= 1e-4, "the quaternion of a planar turn by " << th << " is " << q.coeffs().transpose()); }
  c.nontrivial(std::fabs(th) > 1e-3 && std::fabs(p.x()) + std::fabs(p.y()) > 1e-3); c.label(std::fabs(th) > PI / 2, "facing backwards");
}
// ---------------- formatters ----------------
namespace {
std::string num(double v, int p, int w) { std::ostringstream o; o << std::fixed << std::setprecision(p) << v; std::string t = o.str(); return (int)t.size() < w ? std::string(w - t.size(), ' ') + t : t; }
template <typename F> void unready(F& f) {
#if defined(NDEBUG) || defined(ECL_DISABLE_EXCEPTIONS)
  (void)f;
#else
  bool ok = false; std::ostringstream o; try { o << f; } catch (const ecl::StandardException& e) { ok = e.flag() == ecl::UsageError; } CHECK(ok, "printing without a fresh value went unnoticed: " << o.str());
#endif
}
template <typename Mat, typename F> void matrix(pbt::Src& s, pbt::Ctx& c, int rows, int cols, const char* how) {
  Mat m(rows, cols), k(rows, cols); auto fill = [&](Mat& x) { for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) x(i, j) = (typename Mat::Scalar)(s.coin() ? (double)s.centred(-999, 999) : s.real(1e4)); }; fill(m); fill(k);
  int w = -1, p = 2; F f; if (s.coin(1, 4)) unready(f); int ops = (int)s.len(1, 6); bool nt = false;
  auto text = [&](const Mat& x, int w_, int p_) { std::string r; for (int i = 0; i < rows; ++i) { for (int j = 0; j < cols; ++j) r += num((double)x(i, j), p_, w_) + "  "; if (rows != 1) r += "\n"; } return r; };
  for (int i = 0; i < ops; ++i) { switch (s.below(5)) {
    case 0: w = (int)s.range(-1, 20); f.width(w); break;
    case 1: p = (int)s.range(0, 12); f.precision((unsigned)p); break;
    case 2: { int tw = (int)s.range(-1, 20), tp = (int)s.range(0, 12); const Mat& x = s.coin() ? m : k; std::ostringstream o; o << f(x, tw, (unsigned)tp); CHECK(o.str() == text(x, tw, tp), how << " with temporary width " << tw << " precision " << tp << " prints " << pbt::quote(o.str()) << " expected " << pbt::quote(text(x, tw, tp))); nt = true; break; }
    default: { const Mat& x = s.coin() ? m : k; std::ostringstream o; o << f(x); CHECK(o.str() == text(x, w, p), how << " with width " << w << " precision " << p << " prints " << pbt::quote(o.str()) << " expected " << pbt::quote(text(x, w, p))); nt = true; if (s.coin(1, 4)) unready(f); } }
    CHECK(f.width() == w && (int)f.precision() == p, how << " reports width " << f.width() << " precision " << f.precision() << ", set were " << w << " and " << p); }
  c.nontrivial(nt && rows * cols > 1); NOTE(how << " " << rows << "x" << cols << " width " << w << " precision " << p);
}
}
PBT(format_matrix, 3, "more than one element is printed") {
  using namespace Eigen; int r = (int)s.range(1, 4), k = (int)s.range(1, 4);
  switch (s.below(6)) { case 0: matrix<Matrix2d, FloatMatrixFormatter<Matrix2d>>(s, c, 2, 2, "Matrix2d"); break; case 1: matrix<MatrixXd, MatrixXd::Formatter>(s, c, r, k, "MatrixXd"); break; case 2: matrix<MatrixXf, ecl::Format<MatrixXf>>(s, c, r, k, "MatrixXf"); break;
    case 3: matrix<Matrix<double, 3, 1>, ecl::Format<Matrix<double, 3, 1>>>(s, c, 3, 1, "Vector3d"); break; case 4: matrix<Matrix<float, 1, 4>, FloatMatrixFormatter<Matrix<float, 1, 4>>>(s, c, 1, 4, "RowVector4f"); break; default: matrix<Matrix3f, Matrix3f::Formatter>(s, c, 3, 3, "Matrix3f"); }
}
PBT(format_frame, 2, "a frame is printed") {
  int w = -1, p = 2; bool nt = false; ecl::Format<SE3f> f; if (s.coin(1, 4)) unready(f); SE3f A = rot(s, 3, vec(s, 100)), B = rot(s, 3, vec(s, 100)); int ops = (int)s.len(1, 6);
  auto text = [](const SE3f& T, int w, int p) { Vector3f t = T.translation(); Eigen::Quaternionf q = T.unit_quaternion(); return "[x:" + num(t.x(), p, w) + "  y:" + num(t.y(), p, w) + "  z:" + num(t.z(), p, w) + "][x:" + num(q.x(), p, w) + "  y:" + num(q.y(), p, w) + "  z:" + num(q.z(), p, w) + "  w:" + num(q.w(), p, w) + "  ]"; };
  for (int i = 0; i < ops; ++i) { switch (s.below(5)) {
    case 0: w = (int)s.range(-1, 20); f.width(w); break; case 1: p = (int)s.range(0, 8); f.precision((unsigned)p); break;
    case 2: { int tw = (int)s.range(-1, 20), tp = (int)s.range(0, 8); const SE3f& T = s.coin() ? A : B; std::ostringstream o; o << f(T, tw, (unsigned)tp); CHECK(o.str() == text(T, tw, tp), "frame with temporary width " << tw << " precision " << tp << " prints " << o.str() << " expected " << text(T, tw, tp)); nt = true; break; }
    default: { const SE3f& T = s.coin() ? A : B; std::ostringstream o; o << f(T); CHECK(o.str() == text(T, w, p), "frame with width " << w << " precision " << p << " prints " << o.str() << " expected " << text(T, w, p)); nt = true; if (s.coin(1, 4)) unready(f); } }
    CHECK(f.width() == w && (int)f.precision() == p, "the frame formatter reports width " << f.width() << " precision " << f.precision() << ", set were " << w << " and " << p); }
  std::ostringstream o; o << A; std::istringstream is(o.str()); double v[7]; int n = 0; while (n < 7 && is >> v[n]) ++n; Vector3f t = A.translation(); Eigen::Quaternionf q = A.unit_quaternion(); double wv[7] = {t.x(), t.y(), t.z(), q.x(), q.y(), q.z(), q.w()}; bool same = n == 7; for (int i = 0; i < n; ++i) same = same && std::fabs(v[i] - wv[i]) <= 1e-4 * (1 + std::fabs(wv[i])); CHECK(same, "a frame streams as " << o.str() << " for " << show(A));
  c.nontrivial(nt);
}
PBT_MAIN
