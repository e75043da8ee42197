// Double-precision geometry shared by the harnesses, written independently of the code under test.
#pragma once
#include <pbt.h>
#include <Eigen/Dense>
#include <cmath>
#include <string>
#include <vector>
namespace geom {
const double D2R = M_PI / 180.0;
typedef Eigen::Vector3d V3;
inline double wrap180(double a) { return a - 360.0 * std::floor(a / 360.0 + 0.5); }
inline double wrapPi(double a) { return a - 2 * M_PI * std::floor(a / (2 * M_PI) + 0.5); }
inline double circ(double a, double b) { return std::fabs(wrap180(a - b)); }
inline V3 dirHist(double e, double z) { return V3(std::cos(e * D2R) * std::sin(z * D2R), std::cos(e * D2R) * std::cos(z * D2R), std::sin(e * D2R)); }
// elevation up and azimuth clockwise from +y of a vector, degrees
inline double elev(const V3& v) { return std::atan2(v.z(), v.head<2>().norm()) / D2R; }
inline double azim(const V3& v) { return std::atan2(v.x(), v.y()) / D2R; }
inline std::string sv(const Eigen::Vector3f& v) { return "(" + pbt::str(v.x()) + "," + pbt::str(v.y()) + "," + pbt::str(v.z()) + ")"; }
inline std::string sv(const V3& v) { return "(" + pbt::str(v.x()) + "," + pbt::str(v.y()) + "," + pbt::str(v.z()) + ")"; }
inline Eigen::Vector3f pos3(pbt::Src& s, double m) { return Eigen::Vector3f(s.sf(float(m)), s.sf(float(m)), s.sf(float(m))); }
// index of the histogram cell and the distance (degrees) to its nearest border
struct Cell { int e, z; double margin; };
inline Cell cellOf(const V3& v, double res) {
  double a = (elev(v) + 90) / res, b = (azim(v) + 180) / res;
  int ne = int(std::lround(180 / res)), nz = int(std::lround(360 / res));
  Cell c;
  c.e = std::min(ne - 1, std::max(0, int(std::floor(a))));
  c.z = ((int(std::floor(b)) % nz) + nz) % nz;
  double ma = std::min(a - std::floor(a), std::ceil(a) - a) * res, mb = std::min(b - std::floor(b), std::ceil(b) - b) * res;
  c.margin = std::min(ma, mb);
  return c;
}
}  // namespace geom
