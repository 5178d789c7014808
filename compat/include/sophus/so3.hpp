#ifndef COMPAT_SOPHUS_SO3_HPP_
#define COMPAT_SOPHUS_SO3_HPP_
#include <cmath>
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace Sophus {
template <typename S> class SO3 {
public:
  typedef S Scalar; typedef Eigen::Matrix<S,3,1> Tangent; typedef Eigen::Matrix<S,3,1> Point;
  typedef Eigen::Matrix<S,3,3> Transformation;
  SO3() : q(Eigen::Quaternion<S>::Identity()) {}
  explicit SO3(const Eigen::Quaternion<S>& q_) : q(q_) { q.normalize(); }
  SO3(const Transformation& R) : q(R) { q.normalize(); }
  static Transformation hat(const Tangent& w) { Transformation W; W << 0,-w(2),w(1), w(2),0,-w(0), -w(1),w(0),0; return W; }
  Tangent log() const { return logWithTheta(q); }
  static Tangent log(const SO3& o) { return o.log(); }
  static SO3 exp(const Tangent& w) {
    double x = w(0), y = w(1), z = w(2), t2 = x*x + y*y + z*z, t = std::sqrt(t2), k, re;
    if (t < 1e-8) { k = 0.5 - t2/48.0; re = 1 - t2/8.0; } else { k = std::sin(t/2)/t; re = std::cos(t/2); }
    return SO3(Eigen::Quaternion<S>(S(re), S(k*x), S(k*y), S(k*z)));
  }
  SO3 inverse() const { return SO3(q.conjugate()); }
  SO3 operator*(const SO3& o) const { return SO3(q*o.q); }
  Point operator*(const Point& p) const { return q._transformVector(p); }
  Transformation matrix() const { return q.toRotationMatrix(); }
  const Eigen::Quaternion<S>& unit_quaternion() const { return q; }
private:
  static Tangent logWithTheta(const Eigen::Quaternion<S>& q) {
    double w = q.w(), x = q.x(), y = q.y(), z = q.z();
    double n = std::sqrt(x*x + y*y + z*z), k;
    if (n < 1e-12) k = 2.0/w;
    else { if (w < 0) k = 2*std::atan2(-n, -w)/n; else k = 2*std::atan2(n, w)/n; }
    return Tangent(S(k*x), S(k*y), S(k*z));
  }
  Eigen::Quaternion<S> q;
};
typedef SO3<float> SO3f; typedef SO3<double> SO3d;
}
#endif
