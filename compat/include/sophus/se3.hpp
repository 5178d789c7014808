#ifndef COMPAT_SOPHUS_SE3_HPP_
#define COMPAT_SOPHUS_SE3_HPP_
#include "so3.hpp"
namespace Sophus {
template <typename S> class SE3 {
public:
  typedef S Scalar; typedef Eigen::Matrix<S,6,1> Tangent; typedef Eigen::Matrix<S,3,1> Point;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  SE3() : t(Point::Zero()) {}
  SE3(const SO3<S>& r_, const Point& t_) : r(r_), t(t_) {}
  SE3(const Eigen::Quaternion<S>& q, const Point& t_) : r(q), t(t_) {}
  SE3(const Eigen::Matrix<S,3,3>& R, const Point& t_) : r(R), t(t_) {}
  const SO3<S>& so3() const { return r; } SO3<S>& so3() { return r; }
  const Point& translation() const { return t; } Point& translation() { return t; }
  const Eigen::Quaternion<S>& unit_quaternion() const { return r.unit_quaternion(); }
  Eigen::Matrix<S,3,3> rotationMatrix() const { return r.matrix(); }
  Eigen::Matrix<S,4,4> matrix() const { Eigen::Matrix<S,4,4> m = Eigen::Matrix<S,4,4>::Identity(); m.template block<3,3>(0,0) = r.matrix(); m.template block<3,1>(0,3) = t; return m; }
  SE3 inverse() const { SO3<S> ri = r.inverse(); return SE3(ri, Point(-(ri*t))); }
  SE3 operator*(const SE3& o) const { return SE3(r*o.r, Point(t + r*o.t)); }
  Point operator*(const Point& p) const { return r*p + t; }
  static SE3 exp(const Tangent& a) {
    Eigen::Vector3d w = a.template tail<3>().template cast<double>(), u = a.template head<3>().template cast<double>();
    Eigen::Matrix3d W = SO3<double>::hat(w);
    double th = w.norm(), A, B;
    if (th < 1e-4) { A = 0.5 - th*th/24; B = 1.0/6 - th*th/120; }
    else { A = (1-std::cos(th))/(th*th); B = (th-std::sin(th))/(th*th*th); }
    Eigen::Vector3d tt = u + A*(W*u) + B*(W*(W*u));
    return SE3(SO3<S>::exp(a.template tail<3>()), Point(tt.template cast<S>()));
  }
  Tangent log() const {
    Eigen::Vector3d w = r.log().template cast<double>(), tt = t.template cast<double>();
    Eigen::Matrix3d W = SO3<double>::hat(w);
    double th = w.norm(), C;
    if (th < 1e-3) C = 1.0/12 + th*th/720;
    else { double h = th/2; C = (1 - h*std::cos(h)/std::sin(h))/(th*th); }
    Eigen::Vector3d u = tt - 0.5*(W*tt) + C*(W*(W*tt));
    Tangent a; a.template head<3>() = u.template cast<S>(); a.template tail<3>() = w.template cast<S>();
    return a;
  }
  static Tangent log(const SE3& o) { return o.log(); }
private:
  SO3<S> r; Point t;
};
typedef SE3<float> SE3f; typedef SE3<double> SE3d;
}
#endif
