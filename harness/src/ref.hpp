// Independent reference formulas used by the oracles. Nothing in here calls
// into the code under test.
#pragma once
#include "mon.hpp"

namespace ref
{
inline Mat3 skew(const Vec3 & a)
{
  Mat3 m;
  m << 0, -a.z(), a.y(), a.z(), 0, -a.x(), -a.y(), a.x(), 0;
  return m;
}
// exponential map, series near zero
inline Quat qexp(const Vec3 & v)
{
  double a = v.norm();
  double s = a < 1e-6 ? 0.5 - a * a / 48.0 : std::sin(a / 2) / a;
  return Quat(std::cos(a / 2), s * v.x(), s * v.y(), s * v.z());
}
// logarithm with angle in [0, pi]
inline Vec3 qlog(Quat q)
{
  if (q.w() < 0) {q.coeffs() = -q.coeffs();}
  double n = q.vec().norm();
  double a = 2 * std::atan2(n, q.w());
  if (n < 1e-12) {return 2 * q.vec();}
  return q.vec() * (a / n);
}
inline Quat qmul(const Quat & a, const Quat & b)
{
  return Quat(
    a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z(),
    a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(),
    a.w() * b.y() - a.x() * b.z() + a.y() * b.w() + a.z() * b.x(),
    a.w() * b.z() + a.x() * b.y() - a.y() * b.x() + a.z() * b.w());
}
inline Quat qinv(const Quat & q) {return Quat(q.w(), -q.x(), -q.y(), -q.z());}
inline Mat3 rot(const Quat & q)
{
  double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  Mat3 m;
  m << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
    2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
    2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return m;
}
// shortest-path spherical interpolation
inline Quat slerp(const Quat & a, Quat b, double t)
{
  if (a.coeffs().dot(b.coeffs()) < 0) {b.coeffs() = -b.coeffs();}
  return qmul(a, qexp(t * qlog(qmul(qinv(a), b))));
}
// WGS84
const double WA = 6378137.0, WF = 1.0 / 298.257223563;
inline Vec3 lla2ecef(const Vec3 & l)
{
  double d = M_PI / 180, e2 = WF * (2 - WF), sp = std::sin(l[0] * d), cp = std::cos(l[0] * d);
  double N = WA / std::sqrt(1 - e2 * sp * sp);
  return Vec3((N + l[2]) * cp * std::cos(l[1] * d), (N + l[2]) * cp * std::sin(l[1] * d), (N * (1 - e2) + l[2]) * sp);
}
inline Mat3 ecef2enuR(const Vec3 & l)
{
  double d = M_PI / 180, p = l[0] * d, m = l[1] * d;
  Vec3 e(-std::sin(m), std::cos(m), 0);
  Vec3 n(-std::sin(p) * std::cos(m), -std::sin(p) * std::sin(m), std::cos(p));
  Mat3 R;
  R.row(0) = e;
  R.row(1) = n;
  R.row(2) = e.cross(n);
  return R;
}
// iterative inverse (latitude by fixed-point iteration on the ellipsoid)
inline Vec3 ecef2lla(const Vec3 & e)
{
  double e2 = WF * (2 - WF), w = std::hypot(e.x(), e.y()), lat = std::atan2(e.z(), w * (1 - e2)), h = 0;
  for (int k = 0; k < 200; ++k) {
    double sp = std::sin(lat), N = WA / std::sqrt(1 - e2 * sp * sp);
    double nl = std::atan2(e.z() + N * e2 * sp, w);
    bool stop = std::fabs(nl - lat) < 1e-16;
    lat = nl;
    if (stop) {break;}
  }
  double sp = std::sin(lat), cp = std::cos(lat), N = WA / std::sqrt(1 - e2 * sp * sp);
  h = w * cp + e.z() * sp - WA * WA / N;
  return Vec3(lat * 180 / M_PI, std::atan2(e.y(), e.x()) * 180 / M_PI, h);
}
inline Vec3 lla2enu(const Vec3 & p, const Vec3 & r) {return ecef2enuR(r) * (lla2ecef(p) - lla2ecef(r));}
// local frame rotated about up: the repository's ang_l_to_e convention
inline Vec3 enu2local(const Vec3 & e, double a)
{
  return Vec3(std::cos(a) * e.x() - std::sin(a) * e.y(), std::sin(a) * e.x() + std::cos(a) * e.y(), e.z());
}
const Vec3 G(0, 0, 9.80665);
}  // namespace ref
