#ifndef COMPAT_SOPHUS_SE2_HPP_
#define COMPAT_SOPHUS_SE2_HPP_
#include "so2.hpp"
namespace Sophus {
template <typename S> class SE2 {
public:
  typedef S Scalar; typedef Eigen::Matrix<S,3,1> Tangent; typedef Eigen::Matrix<S,2,1> Point;
  SE2() : t(Point::Zero()) {}
  SE2(const SO2<S>& r_, const Point& t_) : r(r_), t(t_) {}
  SE2(const S& theta, const Point& t_) : r(theta), t(t_) {}
  const SO2<S>& so2() const { return r; } SO2<S>& so2() { return r; }
  const Point& translation() const { return t; } Point& translation() { return t; }
  Eigen::Matrix<S,2,2> rotationMatrix() const { return r.matrix(); }
  SE2 inverse() const { SO2<S> ri = r.inverse(); return SE2(ri, Point(-(ri*t))); }
  SE2 operator*(const SE2& o) const { return SE2(r*o.r, Point(t + r*o.t)); }
  Point operator*(const Point& p) const { return r*p + t; }
  static SE2 exp(const Tangent& a) {
    double th = a(2), s, c;
    if (std::fabs(th) < 1e-8) { s = 1 - th*th/6; c = th/2; } else { s = std::sin(th)/th; c = (1-std::cos(th))/th; }
    return SE2(SO2<S>(a(2)), Point(S(s*a(0) - c*a(1)), S(c*a(0) + s*a(1))));
  }
  Tangent log() const {
    double th = r.log(), h = th/2, k;
    if (std::fabs(th) < 1e-6) k = 1 - th*th/12; else k = h*std::cos(h)/std::sin(h);
    return Tangent(S(k*t(0) + h*t(1)), S(-h*t(0) + k*t(1)), S(th));
  }
  static Tangent log(const SE2& o) { return o.log(); }
private:
  SO2<S> r; Point t;
};
typedef SE2<float> SE2f; typedef SE2<double> SE2d;
}
#endif
