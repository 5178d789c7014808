/* Minimal stand-in for Sophus (not installed here): the rigid-motion groups with the interface the
 * library uses.  exp/log follow the textbook closed forms with series near zero. */
#ifndef COMPAT_SOPHUS_SO2_HPP_
#define COMPAT_SOPHUS_SO2_HPP_
#include <cmath>
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace Sophus {
template <typename S> class SO2 {
public:
  typedef S Scalar; typedef S Tangent; typedef Eigen::Matrix<S,2,2> Transformation;
  SO2() : c(1), s(0) {}
  SO2(S theta) : c(std::cos(theta)), s(std::sin(theta)) {}
  SO2(S re, S im) : c(re), s(im) { norm(); }
  explicit SO2(const Eigen::Matrix<S,2,2>& R) : c(R(0,0)), s(R(1,0)) { norm(); }
  S log() const { return std::atan2(s, c); }
  static S log(const SO2& o) { return o.log(); }
  static SO2 exp(S t) { return SO2(t); }
  SO2 inverse() const { SO2 r; r.c = c; r.s = -s; return r; }
  SO2 operator*(const SO2& o) const { return SO2(c*o.c - s*o.s, c*o.s + s*o.c); }
  SO2& operator*=(const SO2& o) { *this = *this * o; return *this; }
  Eigen::Matrix<S,2,1> operator*(const Eigen::Matrix<S,2,1>& p) const { return matrix()*p; }
  Eigen::Matrix<S,2,2> matrix() const { Eigen::Matrix<S,2,2> R; R << c, -s, s, c; return R; }
  Eigen::Matrix<S,2,1> unit_complex() const { return Eigen::Matrix<S,2,1>(c, s); }
private:
  void norm() { S n = std::sqrt(c*c + s*s); c /= n; s /= n; }
  S c, s;
};
typedef SO2<float> SO2f; typedef SO2<double> SO2d;
}
#endif
