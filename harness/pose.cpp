// Poses and odometry helpers against homogeneous transforms in long double and plain vectors.
#include <cmath>
#include <memory>
#include <vector>
#include <pbt.hpp>
#include <ecl/geometry/pose2d.hpp>
#include <ecl/geometry/legacy_pose2d.hpp>
#include <ecl/geometry/legacy_pose3d.hpp>
#include <ecl/geometry/odometry_typedefs.hpp>
#include <ecl/geometry/odometry_helper.hpp>
using namespace ecl;
typedef long double LD;
namespace {
const LD PI = std::acos(-1.0L);
struct P { LD x, y, h; };
P mul(const P& a, const P& b) { return P{a.x + std::cos(a.h) * b.x - std::sin(a.h) * b.y, a.y + std::sin(a.h) * b.x + std::cos(a.h) * b.y, a.h + b.h}; }
P inv(const P& a) { return P{-(std::cos(a.h) * a.x + std::sin(a.h) * a.y), std::sin(a.h) * a.x - std::cos(a.h) * a.y, -a.h}; }
LD adiff(LD a, LD b) { LD d = std::fmod(a - b, 2 * PI); if (d > PI) d -= 2 * PI; if (d < -PI) d += 2 * PI; return std::fabs(d); }
double coord(pbt::Src& s) { return s.coin(1, 5) ? 0 : s.coin() ? (double)s.centred(-9, 9) : s.real(100); }
double head(pbt::Src& s) { switch (s.below(4)) { case 0: return (double)s.centred(-4, 4) * (double)PI / 4; case 1: return (double)s.centred(-3, 3); default: return s.real(3.14159); } }
P gen(pbt::Src& s) { P p; p.x = coord(s); p.y = coord(s); p.h = head(s); return p; }
std::string show(const P& p) { std::ostringstream o; o.precision(17); o << "[" << (double)p.x << " " << (double)p.y << " " << (double)p.h << "]"; return o.str(); }
void near(const char* what, LD x, LD y, LD h, const P& w, LD eps, LD scale) { if (!(std::fabs(x - w.x) <= eps * scale && std::fabs(y - w.y) <= eps * scale && adiff(h, w.h) <= eps * 10)) FAIL(what << " is [" << (double)x << " " << (double)y << " " << (double)h << "], expected " << show(w)); }
LD scale(const P& a, const P& b) { return 1 + std::fabs(a.x) + std::fabs(a.y) + std::fabs(b.x) + std::fabs(b.y); }
template <typename F> LD eps() { return sizeof(F) == 4 ? 2e-6L : 1e-13L; }
template <typename F> P rnd(P p) { p.x = (F)p.x; p.y = (F)p.y; p.h = (F)p.h; return p; }
template <typename Q> void cmp(const char* what, const Q& q, const P& w, LD e, LD sc) { near(what, q.x(), q.y(), q.heading(), w, e, sc); }

template <typename F> void simple(pbt::Src& s, pbt::Ctx& c) {
  typedef Pose2D<F> Q; typedef typename Q::XYH V; P a = rnd<F>(gen(s)), b = rnd<F>(gen(s)), d = rnd<F>(gen(s)); LD e = eps<F>(), sc = scale(a, b) + scale(d, d);
  Q qa((F)a.x, (F)a.y, (F)a.h), qb((F)b.x, (F)b.y, (F)b.h); V vd((F)d.x, (F)d.y, (F)d.h); Q qd(vd); const Q& ca = qa; Q none; NOTE(show(a) << " * " << show(b) << " * " << show(d));
  CHECK(none.x() == 0 && none.y() == 0 && none.heading() == 0, "a new pose is not the identity"); CHECK(ca.x() == (F)a.x && ca.y() == (F)a.y && ca.heading() == (F)a.h && qd.x() == (F)d.x && qd.y() == (F)d.y && qd.heading() == (F)d.h, "coordinates not kept: " << ca.x() << " " << ca.y() << " " << ca.heading() << " of " << show(a));
  typename Q::Translation t = ca.translation(); typename Q::RotationMatrix R = ca.rotationMatrix(); CHECK(t[0] == (F)a.x && t[1] == (F)a.y, "translation"); CHECK(std::fabs(R(0, 0) - std::cos(a.h)) <= e && std::fabs(R(1, 1) - std::cos(a.h)) <= e && std::fabs(R(1, 0) - std::sin(a.h)) <= e && std::fabs(R(0, 1) + std::sin(a.h)) <= e, "rotation matrix");
  P w = mul(a, b); Q ab = ca * qb; cmp("product", ab, w, e, sc); CHECK(std::fabs(ab.heading()) <= PI + 10 * e, "the heading of a product is not wrapped: " << ab.heading()); cmp("first factor after a product", qa, a, 0, sc);
  V va((F)a.x, (F)a.y, (F)a.h), vb((F)b.x, (F)b.y, (F)b.h), vc = concatenate_poses(va, vb); near("concatenated pose", vc[0], vc[1], vc[2], w, e, sc); CHECK(std::fabs(vc[2]) <= PI + 10 * e, "heading not wrapped " << vc[2]);
  V ve = va; extend_pose(ve, vb); near("extended pose", ve[0], ve[1], ve[2], w, e, sc); CHECK(std::fabs(ve[2]) <= PI + 10 * e, "heading not wrapped " << ve[2]); Q qe = qa; Q& back = (qe *= qb); CHECK(&back == &qe, "the product assignment returns something else"); cmp("pose after product assignment", qe, w, e, sc);
  cmp("(a*b)*c", (ca * qb) * qd, mul(w, d), 4 * e, sc); cmp("a*(b*c)", ca * (qb * qd), mul(w, d), 4 * e, sc); cmp("product with the identity", none * qa, a, e, sc); Q self = qa; self *= self; cmp("pose multiplied by itself", self, mul(a, a), 2 * e, sc);
  P ia = inv(a); Q qi((F)ia.x, (F)ia.y, (F)ia.h); cmp("product with the inverse", ca * qi, P{0, 0, 0}, 4 * e, sc); c.nontrivial(a.h != 0 && (b.x != 0 || b.y != 0)); c.label(std::fabs(a.h + b.h) > PI, "heading wraps");
}
template <typename F, Pose2DStorageType S1, Pose2DStorageType S2> void legacy(pbt::Src& s, pbt::Ctx& c) {
  typedef LegacyPose2D<F, S1> A; typedef LegacyPose2D<F, S2> B; typedef typename A::RotationMatrix RM; typedef typename A::Translation TV; P a = rnd<F>(gen(s)), b = rnd<F>(gen(s)); LD e = eps<F>() * 4, sc = scale(a, b); NOTE(show(a) << " and " << show(b));
  Angle<F> ha((F)a.h), hb((F)b.h); RM Ra = ha.rotationMatrix(); TV ta((F)a.x, (F)a.y); A pa; CHECK(pa.x() == 0 && pa.y() == 0, "a new pose is not the identity"); cmp("identity", A::Identity(), P{0, 0, 0}, e, 1);
  switch (s.below(7)) { case 0: pa = A((F)a.x, (F)a.y, ha); break; case 1: pa = A(Ra, ta); break; case 2: pa = A(ha, ta); break; case 3: pa.setPose((F)a.x, (F)a.y, ha); break; case 4: pa.x((F)a.x); pa.y((F)a.y); pa.heading(ha); break; case 5: pa.rotation(ha); pa.translation((F)a.x, (F)a.y); break; default: pa.rotationMatrix(Ra); pa.translation(ta); break; }
  B pb((F)b.x, (F)b.y, hb); cmp("pose", pa, a, e, sc); cmp("pose", pb, b, e, sc); A copy(pa); B conv(pa); A asg; asg = pb; cmp("copy", copy, a, e, sc); cmp("pose converted to the other storage", conv, a, e, sc); cmp("pose assigned from the other storage", asg, b, e, sc);
  RM R = pa.rotationMatrix(); CHECK(std::fabs(R(0, 0) - std::cos(a.h)) <= e && std::fabs(R(1, 0) - std::sin(a.h)) <= e && std::fabs(R(0, 1) + std::sin(a.h)) <= e && std::fabs(R(1, 1) - std::cos(a.h)) <= e, "rotation matrix of " << show(a)); const A& ca = pa; CHECK(ca.translation()[0] == (F)a.x && pa.translation()[1] == (F)a.y, "translation");
  cmp("inverse", pa.inverse(), inv(a), e, sc); cmp("product with the inverse", pa * pa.inverse(), P{0, 0, 0}, e, sc); cmp("product", pa * pb, mul(a, b), e, sc); A q = pa; A& back = (q *= pb); CHECK(&back == &q, "the product assignment returns something else"); cmp("pose after product assignment", q, mul(a, b), e, sc);
  cmp("relative pose", pa.relative(pb), mul(inv(b), a), 2 * e, sc); cmp("reference times relative pose", pb * pa.relative(pb), a, 4 * e, sc); A id = pa; id.setIdentity(); cmp("pose reset to the identity", id, P{0, 0, 0}, e, 1); cmp("identity times pose", id * pa, a, e, sc);
  std::ostringstream o; o << pa; std::string t = o.str(); double x = 0, y = 0, h = 0; int n = sscanf(t.c_str(), "[ %lf %lf %lf ]", &x, &y, &h); CHECK(n == 3 && std::fabs(x - a.x) <= 0.00051 + e * sc && std::fabs(y - a.y) <= 0.00051 + e * sc && adiff(h, a.h) <= 0.00051 + 10 * e, "printed as " << t << ", the pose is " << show(a));
  c.nontrivial(a.h != 0 && b.h != 0 && (b.x != 0 || b.y != 0)); c.label(std::fabs(a.h + b.h) > PI, "heading wraps");
}
}
PBT(pose_simple, 3, "the first pose is rotated and the second one translated") { if (s.coin()) simple<double>(s, c); else simple<float>(s, c); }
PBT(pose_legacy, 3, "both poses are rotated and the second one translated") {
  switch (s.below(6)) { case 0: legacy<double, RotationMatrixStorage, RotationMatrixStorage>(s, c); break; case 1: legacy<double, RotationAngleStorage, RotationAngleStorage>(s, c); break; case 2: legacy<double, RotationMatrixStorage, RotationAngleStorage>(s, c); break; case 3: legacy<double, RotationAngleStorage, RotationMatrixStorage>(s, c); break; case 4: legacy<float, RotationMatrixStorage, RotationAngleStorage>(s, c); break; default: legacy<float, RotationAngleStorage, RotationMatrixStorage>(s, c); }
}
// ---------------- poses in space ----------------
namespace {
struct T3 { LD R[3][3], t[3]; };
T3 mul(const T3& a, const T3& b) { T3 r; for (int i = 0; i < 3; ++i) { r.t[i] = a.t[i]; for (int k = 0; k < 3; ++k) r.t[i] += a.R[i][k] * b.t[k]; for (int j = 0; j < 3; ++j) { r.R[i][j] = 0; for (int k = 0; k < 3; ++k) r.R[i][j] += a.R[i][k] * b.R[k][j]; } } return r; }
T3 inv(const T3& a) { T3 r; for (int i = 0; i < 3; ++i) { r.t[i] = 0; for (int k = 0; k < 3; ++k) r.t[i] -= a.R[k][i] * a.t[k]; for (int j = 0; j < 3; ++j) r.R[i][j] = a.R[j][i]; } return r; }
struct AA { LD ax[3], an; };
T3 from(const AA& g, const LD* t) { T3 r; LD c = std::cos(g.an), s = std::sin(g.an), v = 1 - c, x = g.ax[0], y = g.ax[1], z = g.ax[2]; LD m[3][3] = {{c + x * x * v, x * y * v - z * s, x * z * v + y * s}, {y * x * v + z * s, c + y * y * v, y * z * v - x * s}, {z * x * v - y * s, z * y * v + x * s, c + z * z * v}}; for (int i = 0; i < 3; ++i) { r.t[i] = t[i]; for (int j = 0; j < 3; ++j) r.R[i][j] = m[i][j]; } return r; }
AA gen_aa(pbt::Src& s) { AA g; LD n; do { n = 0; for (int i = 0; i < 3; ++i) { g.ax[i] = s.coin(1, 3) ? 0 : (LD)s.centred(-9, 9); n += g.ax[i] * g.ax[i]; } if (n == 0) { g.ax[2] = 1; n = 1; } } while (n == 0); n = std::sqrt(n); for (auto& v : g.ax) v /= n; g.an = head(s); return g; }
template <typename Q> void cmp3(const char* what, const Q& q, const T3& w, LD e, LD sc) { for (int i = 0; i < 3; ++i) { if (!(std::fabs((LD)q.translation()[i] - w.t[i]) <= e * sc)) FAIL(what << ": translation " << i << " is " << q.translation()[i] << ", expected " << (double)w.t[i]); for (int j = 0; j < 3; ++j) if (!(std::fabs((LD)q.rotation()(i, j) - w.R[i][j]) <= e)) FAIL(what << ": rotation (" << i << "," << j << ") is " << q.rotation()(i, j) << ", expected " << (double)w.R[i][j]); } }
template <typename F> void space(pbt::Src& s, pbt::Ctx& c) {
  typedef LegacyPose3D<F> Q; typedef typename Q::RotationMatrix RM; typedef typename Q::Translation TV; LD e = eps<F>() * 8; AA ga = gen_aa(s), gb = gen_aa(s); LD ta[3], tb[3]; for (auto& v : ta) v = (F)coord(s); for (auto& v : tb) v = (F)coord(s); T3 a = from(ga, ta), b = from(gb, tb); LD sc = 1; for (int i = 0; i < 3; ++i) sc += std::fabs(ta[i]) + std::fabs(tb[i]);
  NOTE("axis " << (double)ga.ax[0] << " " << (double)ga.ax[1] << " " << (double)ga.ax[2] << " angle " << (double)ga.an << " translation " << (double)ta[0] << " " << (double)ta[1] << " " << (double)ta[2] << "; second angle " << (double)gb.an);
  auto make = [&](int how, const AA& g, const T3& w) { TV t((F)w.t[0], (F)w.t[1], (F)w.t[2]); RM R; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = (F)w.R[i][j]; TV ax((F)g.ax[0], (F)g.ax[1], (F)g.ax[2]); ecl::linear_algebra::AngleAxis<F> aa((F)g.an, ax); if (how == 0) return Q(R, t); if (how == 1) return Q(aa, t); if (how == 2) return Q(ecl::linear_algebra::Quaternion<F>(aa), t); Q q; q.rotation(R); q.translation(t); return q; };
  int how = (int)s.below(4); Q qa = make(how, ga, a), qb = make((int)s.below(4), gb, b), none; T3 I; memset(&I, 0, sizeof I); for (int i = 0; i < 3; ++i) { I.t[i] = 0; for (int j = 0; j < 3; ++j) I.R[i][j] = i == j; }
  cmp3("new pose", none, I, 0, 1); cmp3("pose", qa, a, e, sc); cmp3("pose", qb, b, e, sc); Q copy(qa), asg; asg = qa; cmp3("copy", copy, a, e, sc); cmp3("assigned pose", asg, a, e, sc); CHECK(copy.rotationMatrix() == qa.rotation(), "rotation matrix");
  cmp3("inverse", qa.inverse(), inv(a), e, sc); cmp3("product with the inverse", qa * qa.inverse(), I, e, sc); cmp3("product", qa * qb, mul(a, b), e, sc); Q q = qa; Q& back = (q *= qb); CHECK(&back == &q, "the product assignment returns something else"); cmp3("pose after product assignment", q, mul(a, b), e, sc); cmp3("relative pose", qa.relative(qb), mul(inv(b), a), 2 * e, sc); cmp3("reference times relative pose", qb * qa.relative(qb), a, 4 * e, sc);
  P p = rnd<F>(gen(s)); T3 w = I; w.t[0] = p.x; w.t[1] = p.y; w.R[0][0] = w.R[1][1] = std::cos(p.h); w.R[1][0] = std::sin(p.h); w.R[0][1] = -w.R[1][0]; LegacyPose2D<F> p1((F)p.x, (F)p.y, Angle<F>((F)p.h)); LegacyPose2D<F, RotationAngleStorage> p2((F)p.x, (F)p.y, Angle<F>((F)p.h)); Q f1(p1), f2(p2), f3 = qa, f4 = qb; f3 = p1; f4 = p2; LD psc = 1 + std::fabs(p.x) + std::fabs(p.y);
  cmp3("planar pose in space", f1, w, e, psc); cmp3("planar pose in space", f2, w, e, psc); cmp3("space pose assigned from a planar one", f3, w, e, psc); cmp3("space pose assigned from a planar one", f4, w, e, psc);
  std::ostringstream o; o << qa; std::istringstream is(o.str()); for (int i = 0; i < 3; ++i) { std::string line; CHECK((bool)std::getline(is, line), "printed lines:\n" << o.str()); double v[4]; CHECK(sscanf(line.c_str(), "[ %lf %lf %lf ] [ %lf ]", v, v + 1, v + 2, v + 3) == 4, "printed as " << line); for (int j = 0; j < 3; ++j) CHECK(std::fabs(v[j] - a.R[i][j]) <= 0.00051 + e, "printed rotation (" << i << "," << j << ") is " << v[j] << " not " << (double)a.R[i][j]); CHECK(std::fabs(v[3] - a.t[i]) <= 0.00051 + e * sc, "printed translation " << v[3] << " not " << (double)a.t[i]); }
  c.nontrivial(ga.an != 0 && gb.an != 0); c.label(how == 1, "from angle and axis"); c.label(how == 2, "from a quaternion");
}
}
PBT(pose_space, 3, "both poses are rotated") { if (s.coin()) space<double>(s, c); else space<float>(s, c); }
// ---------------- odometry ----------------
namespace {
float fc(pbt::Src& s) { return (float)coord(s); }
typedef std::vector<std::vector<float>> Rows;
template <typename T> void same(const char* what, const T& t, const Rows& m) { CHECK(odometry::size(t) == (int)m.size(), what << " has " << odometry::size(t) << " elements, expected " << m.size()); CHECK(odometry::empty(t) == m.empty(), what << ": empty"); for (size_t i = 0; i < m.size(); ++i) { auto v = odometry::getAt(t, (int)i); for (size_t k = 0; k < m[i].size(); ++k) CHECK(v[k] == m[i][k] && t(k, i) == m[i][k], what << ": element " << i << " component " << k << " is " << v[k] << ", expected " << m[i][k]); } if (!m.empty()) { auto f = odometry::getFront(t), b = odometry::getBack(t); for (size_t k = 0; k < m[0].size(); ++k) CHECK(f[k] == m.front()[k] && b[k] == m.back()[k], what << ": front or back differs"); } }
std::vector<odometry::Pose2D> to_vec(const Rows& m, odometry::Pose2D*) { std::vector<odometry::Pose2D> v; for (auto& r : m) v.push_back(odometry::Pose2D(r[0], r[1], r[2])); return v; }
std::vector<odometry::Odom2D> to_vec(const Rows& m, odometry::Odom2D*) { std::vector<odometry::Odom2D> v; for (auto& r : m) { odometry::Odom2D o; for (int k = 0; k < 6; ++k) o[k] = r[k]; v.push_back(o); } return v; }
template <typename Traj, typename Ptr, typename Elem> void trajectory(pbt::Src& s, pbt::Ctx& c, int width, Ptr (*toptr)(const std::vector<Elem>&)) {
  auto rows = [&](int n) { Rows r(n); for (auto& x : r) for (int k = 0; k < width; ++k) x.push_back(fc(s)); return r; };
  Rows m = rows(s.len(0, 8)); auto vec = to_vec(m, (Elem*)0); Traj t = odometry::vectorToTrajectory(vec); same("trajectory made from a vector", t, m); Ptr p = toptr(vec), null; same("trajectory made from a vector by pointer", *p, m); CHECK(odometry::size(p) == (int)m.size() && odometry::empty(p) == m.empty() && odometry::empty(null), "pointer helpers");
  int ops = s.len(1, 10), adds = 0; for (int i = 0; i < ops; ++i) switch (s.below(4)) {
    case 0: case 1: { Rows e = s.coin(1, 10) ? m : rows(s.len(0, 6)); bool self = s.coin(1, 10); if (self) e = m; Traj x = odometry::vectorToTrajectory(to_vec(e, (Elem*)0)); if (self) odometry::addAtEnd(t, t); else odometry::addAtEnd(t, x); NOTE("add " << e.size() << " at the end of " << m.size()); if (!self) same("trajectory that was added", x, e); if (!m.empty() && !e.empty()) ++adds; for (auto& r : Rows(e)) m.push_back(r); break; }
    case 2: { int n = (int)s.range(0, (int)m.size()) ; NOTE("resize " << m.size() << " to " << n); odometry::resize(t, n); m.resize(n); if (s.coin()) { int g = (int)s.range(1, 4); odometry::resize(t, n + g); CHECK(odometry::size(t) == n + g, "size after growing"); for (int k = 0; k < g; ++k) { Rows one = rows(1); odometry::setAt(t, n + k, to_vec(one, (Elem*)0)[0]); m.push_back(one[0]); } } break; }
    default: if (!m.empty()) { int at = (int)s.below(m.size()); Rows one = rows(1); NOTE("set " << at); odometry::setAt(t, at, to_vec(one, (Elem*)0)[0]); m[at] = one[0]; } }
  same("trajectory", t, m); c.nontrivial(adds > 0 || ops > 3);
}
}
PBT(pose_trajectory, 2, "a non-empty trajectory was added to a non-empty one, or several operations") {
  using namespace odometry;
  if (s.coin()) trajectory<Trajectory2D, Trajectory2DPtr, odometry::Pose2D>(s, c, 3, &vectorToTrajectoryPtr); else trajectory<Odom2DTrajectory, Odom2DTrajectoryPtr, Odom2D>(s, c, 6, &vectorToTrajectoryPtr);
}
PBT(pose_odometry, 2, "a trajectory of two poses or more") {
  using namespace odometry; float v[6]; for (auto& x : v) x = fc(s); Odom2D o = Odom2D::Zero(); setX(o, v[0]); setY(o, v[1]); setYaw(o, v[2]); setVelocityX(o, v[3]); setVelocityY(o, v[4]); setVelocityAngular(o, v[5]);
  for (int k = 0; k < 6; ++k) CHECK(o[k] == v[k], "component " << k << " after setting"); CHECK(getX(o) == v[0] && getY(o) == v[1] && getYaw(o) == v[2] && getVelocityX(o) == v[3] && getVelocityY(o) == v[4] && getVelocityAngular(o) == v[5], "accessors of an odometry");
  odometry::Pose2D p = getPose(o); Twist2D w = getTwist(o); Position2D q = getPosition(o), q2 = getPosition(p); CHECK(getX(p) == v[0] && getY(p) == v[1] && getYaw(p) == v[2], "pose"); CHECK(getVelocityX(w) == v[3] && getVelocityY(w) == v[4] && getVelocityAngular(w) == v[5], "twist"); CHECK(getX(q) == v[0] && getY(q) == v[1] && getX(q2) == v[0] && getY(q2) == v[1], "position");
  float u[6]; for (auto& x : u) x = fc(s); setX(p, u[0]); setY(p, u[1]); setYaw(p, u[2]); CHECK(p[0] == u[0] && p[1] == u[1] && p[2] == u[2], "pose after setting"); setVelocityX(w, u[3]); setVelocityY(w, u[4]); setVelocityAngular(w, u[5]); CHECK(w[0] == u[3] && w[1] == u[4] && w[2] == u[5], "twist after setting"); setX(q, u[4]); setY(q, u[5]); CHECK(q[0] == u[4] && q[1] == u[5], "position after setting");
  Odom2D o2; for (int k = 0; k < 6; ++k) o2[k] = u[k]; LD dx = (LD)v[0] - u[0], dy = (LD)v[1] - u[1], d2 = dx * dx + dy * dy, e = 1e-5L * (1 + std::fabs((LD)v[0]) + std::fabs((LD)v[1]) + std::fabs((LD)u[0]) + std::fabs((LD)u[1])); LD d = std::sqrt(d2); CHECK(std::fabs(distance(o, o2) - d) <= e && std::fabs(distance(p, o) - d) <= e && std::fabs(distance(getPose(o), p) - d) <= e, "distance " << distance(o, o2) << " expected " << (double)d); CHECK(std::fabs(distanceSqared(o, o2) - d2) <= e * (d + 1) && std::fabs(distanceSqared(p, getPose(o)) - d2) <= e * (d + 1), "squared distance " << distanceSqared(o, o2) << " expected " << (double)d2);
  int n = s.len(1, 8); Odom2DTrajectory ot; resize(ot, n); for (int i = 0; i < n; ++i) { Odom2D x; for (int k = 0; k < 6; ++k) x[k] = fc(s); if (i && s.coin(1, 6)) x.head<2>() = ot.col(i - 1).head<2>(); setAt(ot, i, x); } Trajectory2D pt = getPoses(ot); Twist2DVector tv = getTwists(ot); CHECK(size(pt) == n && tv.cols() == n, "sizes"); for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) CHECK(pt(k, i) == ot(k, i) && tv(k, i) == ot(k + 3, i), "poses or twists of a trajectory at " << i);
  // distance to a trajectory: the nearest point of the polyline
  LD px = u[4], py = u[5]; if (s.coin(1, 3)) { int i = (int)s.below(n); px = (float)(pt(0, i) + s.real(0.5)); py = pt(1, i); } Position2D pos((float)px, (float)py); LD best = -1, sc = 1 + std::fabs(px) + std::fabs(py); for (int i = 0; i < n; ++i) { LD x1 = pt(0, i ? i - 1 : 0), y1 = pt(1, i ? i - 1 : 0), x2 = pt(0, i), y2 = pt(1, i), ex = x2 - x1, ey = y2 - y1, l = ex * ex + ey * ey, t = l > 0 ? ((px - x1) * ex + (py - y1) * ey) / l : 0; t = std::min<LD>(1, std::max<LD>(0, t)); LD fx = px - x1 - t * ex, fy = py - y1 - t * ey, f = std::sqrt(fx * fx + fy * fy); if (best < 0 || f < best) best = f; sc += std::fabs(x2) + std::fabs(y2); }
  odometry::Pose2D pp((float)px, (float)py, u[2]); double g1 = distance(pos, pt), g2 = distance(pp, pt); NOTE(n << " poses, point (" << (double)px << "," << (double)py << ") distance " << g1); CHECK(std::fabs(g1 - best) <= 1e-6L * sc && std::fabs(g2 - best) <= 1e-6L * sc, "distance of (" << (double)px << "," << (double)py << ") from the trajectory is " << g1 << " / " << g2 << ", expected " << (double)best); c.nontrivial(n >= 2);
}
PBT_MAIN
