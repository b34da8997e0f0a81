// Shared by the sm_kinematics harnesses: reference rotations in extended precision and the grids explored.
#pragma once
#include "vf.hpp"
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <limits>
using namespace Eigen;
typedef long double L; typedef Matrix<L, 3, 1> L3; typedef Matrix<L, 4, 1> L4; typedef Matrix<L, 3, 3> L33; typedef Matrix<L, 4, 4> L44; typedef Matrix<double, 3, 6> M36; typedef Matrix<double, 6, 1> V6; typedef Matrix<double, 6, 6> M66;
namespace {
const L PI = 3.14159265358979323846264338327950288L;
template <class A, class B> double dist(const A& a, const B& b) { double m = 0; for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) { double d = std::fabs((double)((L)a(i, j) - (L)b(i, j))); if (!(d <= m)) m = d; } return m; }
// ---- reference in extended precision, written from the definitions: q = (eps, eta), passive rotation C = exp(-[a]x)
L4 rexp(const L3& a) { L t = a.norm(); L s = t < 1e-8L ? 0.5L - t * t / 48 + t * t * t * t / 3840 : sinl(t / 2) / t; L4 q; q << a * s, cosl(t / 2); return q; }
L3 rlog(const L4& q) { L3 e = q.head<3>(); L n = e.norm(); if (n == 0) return L3::Zero(); return e * (2 * atan2l(n, q[3]) / n); }
L4 rmul(const L4& q, const L4& p) { L3 a = q.head<3>(), b = p.head<3>(); L3 e = q[3] * b + p[3] * a - a.cross(b); L4 r; r << e, q[3] * p[3] - a.dot(b); return r; }
L33 rcross(const L3& v) { L33 m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
L33 rrot(const L4& q) { L3 e = q.head<3>(); return (q[3] * q[3] - e.dot(e)) * L33::Identity() + 2 * e * e.transpose() - 2 * q[3] * rcross(e); }
L33 raxis(int k, L a) { L3 v = L3::Zero(); v[k] = -a; return rrot(rexp(v)); }  // active rotation about an axis
struct Ang { Vector3d v; std::string n; };
// rotation vectors: axes of the cube (all signs and zeros) and two oblique ones, by angles from tiny over the series thresholds and the multiples of pi/4 to 2 pi
std::vector<Ang> angles(bool th) {
  std::vector<Ang> r; std::vector<Vector3d> ax; for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if (x || y || z) ax.push_back(Vector3d(x, y, z).normalized()); ax.push_back(Vector3d(0.6, -0.48, 0.64)); ax.push_back(Vector3d(1e-9, 1, -1e-5).normalized());
  double fr = std::pow(std::numeric_limits<double>::epsilon(), 0.25), ff = std::pow(std::numeric_limits<float>::epsilon(), 0.25);
  std::vector<double> as = {1e-300, 1e-160, 1e-20, 1e-15, 1e-14, 1.1e-14, 3e-13, 1e-12, 1e-10, 1e-8, 1.5e-8, 3e-8, 1e-7, 1e-6, 1e-5, 5e-5, fr * 0.9999, fr, fr * 1.0001, 2e-4, 1e-3, 5e-3, ff * 0.99, ff, ff * 1.01, 0.1, 0.5, 1, 1.2, 2, 2.5, 3, 3.1, 3.14, (double)PI - 1e-4, (double)PI - 1e-8, (double)PI, (double)PI + 1e-8, 4, 5, 6, 6.28, 2 * (double)PI - 1e-6};
  for (int k = 1; k < 8; ++k) as.push_back(k * (double)PI / 4); if (th) for (int k = 0; k < 60; ++k) { as.push_back(std::ldexp(1.37, -k)); as.push_back(k * 0.1049); }
  r.push_back({Vector3d::Zero(), "0"});
  for (size_t i = 0; i < ax.size(); ++i) for (double a : as) { char b[120]; snprintf(b, sizeof b, "%.17g about axis %zu", a, i); r.push_back({ax[i] * a, b}); }
  return r;
}
// the 48 unit quaternions of the rotations of the cube, and the given number of oblique ones
std::vector<Vector4d> quats(int obl) {
  std::vector<Vector4d> r; double h = std::sqrt(0.5);
  for (int i = 0; i < 4; ++i) for (int s : {1, -1}) { Vector4d q = Vector4d::Zero(); q[i] = s; r.push_back(q); }
  for (int m = 0; m < 16; ++m) r.push_back(Vector4d(m & 1 ? .5 : -.5, m & 2 ? .5 : -.5, m & 4 ? .5 : -.5, m & 8 ? .5 : -.5));
  for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) for (int m = 0; m < 4; ++m) { Vector4d q = Vector4d::Zero(); q[i] = m & 1 ? h : -h; q[j] = m & 2 ? h : -h; r.push_back(q); }
  const double g[][4] = {{1, 2, 3, 4}, {-3, .1, 5, 1e-9}, {1e-9, 0, 0, 1}, {1e-5, -1e-5, 2e-5, 1}, {1, 1e-9, -1e-9, 1e-12}, {.3, -.2, .1, -2}, {1e-5, 0, 1e-7, -1}, {-4, 1, 1, 3}, {1e-200, 0, 0, 1}, {2, -3, 6, 0}, {3, 4, 0, 12}, {1, -1, 1, -1.0001}, {.7, .1, -.2, 0.68}};
  for (int i = 0; i < obl && i < 13; ++i) r.push_back(Vector4d(g[i][0], g[i][1], g[i][2], g[i][3]).normalized());
  return r;
}
std::string s4(const VectorXd& q) { std::ostringstream o; o.precision(17); for (int i = 0; i < q.size(); ++i) o << (i ? "," : "") << q[i]; return o.str(); }
bool proper(const Matrix3d& C, double tol) { return dist(C * C.transpose(), Matrix3d::Identity()) < tol && std::fabs(C.determinant() - 1) < tol; }
bool unit(const Vector4d& q, double t = 2e-15) { return std::fabs(q.norm() - 1) < t; }
double upto(const Vector4d& a, const Vector4d& b) { return std::min(dist(a, b), dist(a, (-b).eval())); }
}
