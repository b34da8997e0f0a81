// K03 transformations, K04 uncertain transformations and vectors, K05 homogeneous points, K06 functions on transformation matrices and alignment.
#include "kin_ref.hpp"
#include "fresh.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/serialization/base_object.hpp>
#include <Eigen/Eigenvalues>
#include <deque>
#include <map>
#include <sstream>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/UncertainVector.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/three_point_methods.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/BoostPropertyTree.hpp>
#include <sm/kinematics/property_tree.hpp>
#include <sm/random.hpp>
using namespace sm::kinematics;
namespace {
typedef HomogeneousPoint HP; typedef UncertainHomogeneousPoint UHP; typedef UncertainTransformation UT; typedef Transformation TF;
typedef Matrix<L, 6, 1> L6; typedef Matrix<L, 4, 6> L46;
L44 rT(const L4& q, const L3& t) { L44 T = L44::Identity(); T.topLeftCorner<3, 3>() = rrot(q); T.topRightCorner<3, 1>() = t; return T; }
L44 rbox(const L6& d) { L44 m = L44::Zero(); m.topLeftCorner<3, 3>() = rcross(L3(d.tail<3>())); m.topRightCorner<3, 1>() = -d.head<3>(); return m; }  // T = (I - d^box) T0
L6 unbox(const L44& m) { L6 d; d << -m(0, 3), -m(1, 3), -m(2, 3), (m(2, 1) - m(1, 2)) / 2, (m(0, 2) - m(2, 0)) / 2, (m(1, 0) - m(0, 1)) / 2; return d; }
std::vector<Matrix3d> cube() { std::vector<Matrix3d> Z; int pm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; for (int m = 0; m < 6; ++m) for (int s = 0; s < 8; ++s) { Matrix3d M = Matrix3d::Zero(); for (int i = 0; i < 3; ++i) M(i, pm[m][i]) = s >> i & 1 ? -1 : 1; if (M.determinant() > 0) Z.push_back(M); } return Z; }
template <class Ar, class Out, class T> T through(const T& x, bool& ok) { std::stringstream s(std::ios::in | std::ios::out | std::ios::binary); { Out o(s); o << boost::serialization::make_nvp("x", x); } T y; y.setRandom(); try { Ar i(s); i >> boost::serialization::make_nvp("x", y); ok = true; } catch (const std::exception&) { ok = false; } return y; }
template <class T> std::string saved(const T& x) {  // "" if every kind of archive gives the object back
  bool ok; T y = through<boost::archive::binary_iarchive, boost::archive::binary_oarchive>(x, ok); if (!ok || !y.isBinaryEqual(x)) return "binary"; y = through<boost::archive::text_iarchive, boost::archive::text_oarchive>(x, ok); if (!ok || !y.isBinaryEqual(x)) return "text"; y = through<boost::archive::xml_iarchive, boost::archive::xml_oarchive>(x, ok); if (!ok || !y.isBinaryEqual(x)) return "xml"; return "";
}
std::vector<Vector3d> transl() { return {{0, 0, 0}, {1, -2, 3}, {0.5, 0, -1e-3}, {100, 1, -7}, {-4, 1e-9, 0.25}}; }
template <int N> std::vector<Matrix<double, N, N>> covs() {  // a basis of the symmetric matrices of positive semidefinite ones, and a full one
  std::vector<Matrix<double, N, N>> r; typedef Matrix<double, N, 1> V; for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) { V v = V::Zero(); v[i] += 1; if (j != i) v[j] += 2; r.push_back(v * v.transpose()); }
  Matrix<double, N, N> A; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) A(i, j) = ((i * 7 + j * 5) % 11 - 4) * 0.3 + (i == j); r.push_back(A * A.transpose()); return r;
}
// --- K03: words over the operations on the rotations of the cube and whole translations
struct M { int R[3][3]; int t[3]; bool operator<(const M& o) const { return memcmp(this, &o, sizeof *this) < 0; } };
M mid() { M m; memset(&m, 0, sizeof m); for (int i = 0; i < 3; ++i) m.R[i][i] = 1; return m; }
M mmul(const M& a, const M& b) { M r; memset(&r, 0, sizeof r); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r.R[i][j] += a.R[i][k] * b.R[k][j]; r.t[i] = a.t[i]; for (int k = 0; k < 3; ++k) r.t[i] += a.R[i][k] * b.t[k]; } return r; }
M minv(const M& a) { M r; memset(&r, 0, sizeof r); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.R[i][j] = a.R[j][i]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) r.t[i] -= r.R[i][k] * a.t[k]; return r; }
M mof(const Matrix3d& R, int x, int y, int z) { M m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.R[i][j] = (int)R(i, j); m.t[0] = x; m.t[1] = y; m.t[2] = z; return m; }
Matrix4d mat(const M& m) { Matrix4d T = Matrix4d::Identity(); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) T(i, j) = m.R[i][j]; T(i, 3) = m.t[i]; } return T; }
std::string ms(const M& m) { std::string s; for (auto& r : m.R) for (int v : r) s += v < 0 ? '-' : v ? '+' : '0'; for (int v : m.t) s += "," + vf::str(v); return s; }
}
VF_PART(K03_words, 8) {
  std::vector<Matrix3d> Z = cube(); const double q2 = (double)PI / 2; int B = c.thorough ? 6 : 3; const double E = 2e-14;
  std::vector<std::pair<M, TF>> gen; for (int z : {1, 5, 9, 14, 22}) { M g = mof(Z[z], z % 3 - 1, z % 2, 1 - z % 4); gen.push_back({g, TF(mat(g))}); } { M g = mid(); g.t[0] = 1; gen.push_back({g, TF(mat(g))}); }
  std::vector<std::pair<M, V6>> upd; for (int k = 0; k < 3; ++k) for (int s : {1, -1, 2}) { V6 d = V6::Zero(); d[k] = s; d[3 + k] = s * q2; Matrix3d R = axisAngle2R(Vector3d(d.tail<3>())); M u; memset(&u, 0, sizeof u); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) u.R[i][j] = (int)std::lround(R(i, j)); for (int i = 0; i < 3; ++i) u.t[i] = (int)d[i]; upd.push_back({u, d}); }
  // check the reference of the updates against the definition
  for (auto& u : upd) c.check(dist(mat(u.first).topLeftCorner<3, 3>(), rrot(rexp(L3(u.second.tail<3>().cast<L>())))) < 1e-12, "reference", "");
  struct Node { TF T; std::string w; int depth; }; std::map<std::pair<M, int>, Node> seen; std::deque<std::pair<M, int>> todo;
  // the space is split by the first rotation: every shard explores from its own three starts
  for (size_t z = 0; z < Z.size(); ++z) if (c.mine(z)) { M m = mof(Z[z], 0, 0, 0); TF T(mat(m)); std::pair<M, int> k(m, 1); if (!seen.count(k)) { seen[k] = {T, "Z" + vf::str(z), 0}; todo.push_back(k); } }
  const Vector3d ps[] = {{0, 0, 0}, {1, -2, 3}, {0.25, 1e3, -7}}; int D = c.thorough ? 6 : 4;
  while (!todo.empty()) {
    std::pair<M, int> k = todo.front(); todo.pop_front(); Node n = seen[k]; if (n.depth >= D) continue; const M& m = k.first; const TF& T = n.T;
    auto reach = [&](const M& w, TF R, const std::string& op) {
      c.transition(); c.cur(n.w + " " + op);
      Matrix4d W = mat(w); double e = E * (n.depth + 2) * 4; bool ok = std::fabs(R.q().norm() - 1) < 4e-16 * 4; c.check(ok, "unit", "the quaternion has norm 1 + " + vf::str(R.q().norm() - 1));
      if (!c.check(dist(R.T(), W) < e, "value", "is " + s4(Map<VectorXd>(Matrix4d(R.T()).data(), 16)) + " instead of " + ms(w))) return;
      c.check(R.C() == R.T().topLeftCorner<3, 3>() && R.t() == R.T().topRightCorner<3, 1>() && R.T3x4() == R.T().topRows<3>() && dist(R.C(), quat2r(R.q())) == 0, "accessors", "T(), C(), t() and T3x4() differ");
      for (auto& p : ps) { Vector3d x = W.topLeftCorner<3, 3>() * p + W.topRightCorner<3, 1>(); double ep = e * (1 + p.norm()); c.check(dist(R * p, x) < ep, "point", "a point goes to " + s4(R * p)); c.check(dist(R.rotate(p), W.topLeftCorner<3, 3>() * p) < ep, "rotate", ""); for (double s : {1.0, 0.0, -2.0}) { Vector4d h; h << p, s; if (h.norm() == 0) continue; c.check(dist(R * h, W * h) < 3 * ep, "homogeneous", ""); c.check(dist((R * HP(h)).toHomogeneous(), W * h) < 3 * ep, "homogeneous", "of a HomogeneousPoint"); Vector4d g = h; g.head<3>() = W.topLeftCorner<3, 3>() * p; c.check(dist(R.rotate(h), g) < ep, "rotate", "of a homogeneous point"); } }
      c.check(R.isBinaryEqual(R) && (dist(R.q(), T.q()) + dist(R.t(), T.t()) == 0) == R.isBinaryEqual(T), "equal", "isBinaryEqual is wrong");
      try { // the way between the two
        TF h = slerpTransformations(T, R, 0.5); c.check(dist(h.t(), (T.t() + R.t()) / 2) < e, "slerp", "the middle is at " + s4(h.t())); double a = std::acos(std::min(1.0, std::fabs(T.q().dot(h.q())))), b = std::acos(std::min(1.0, std::fabs(R.q().dot(h.q())))), f = std::acos(std::min(1.0, std::fabs(T.q().dot(R.q())))); c.check(std::fabs(a - f / 2) < 1e-7 && std::fabs(b - f / 2) < 1e-7, "slerp", "the middle is at angles " + vf::str(a) + ", " + vf::str(b) + " of " + vf::str(f));
        for (double s : {-1.0, 0.0, 0.25, 1.0, 3.0}) { TF x = interpolateTransformations(T, 10, R, 14, 10 + 4 * s), y = slerpTransformations(T, R, s), z = interpolateTransformations(R, 14, T, 10, 10 + 4 * s); c.check(dist(x.T(), y.T()) < e && dist(z.T(), y.T()) < e, "interpolate", "at " + vf::str(s)); if (s <= 0) c.check(dist(y.T(), T.T()) < e, "ends", ""); if (s >= 1) c.check(dist(y.T(), R.T()) < e, "ends", ""); }
        c.check(dist(interpolateTransformations(T, 5, R, 5, 5).T(), T.T()) < e && dist(interpolateTransformations(T, 5, R, 5, 6).T(), R.T()) < e && dist(interpolateTransformations(T, 5, R, 5, 4).T(), T.T()) < e, "interpolate", "between equal times");
      } catch (const std::exception& x) { c.failpl("slerp", std::string("interpolation throws ") + x.what()); }
      if (std::abs(w.t[0]) > B || std::abs(w.t[1]) > B || std::abs(w.t[2]) > B) return;
      std::pair<M, int> key(w, R.q()[3] > 1e-9 ? 1 : R.q()[3] < -1e-9 ? -1 : 0); if (!seen.count(key)) { seen[key] = {R, n.w + " " + op, n.depth + 1}; todo.push_back(key); }
    };
    for (size_t g = 0; g < gen.size(); ++g) { reach(mmul(m, gen[g].first), T * gen[g].second, "*g" + vf::str(g)); reach(mmul(gen[g].first, m), gen[g].second * T, "g" + vf::str(g) + "*"); }
    reach(minv(m), T.inverse(), "inverse"); reach(mid(), T * T.inverse(), "self*inverse"); reach(mid(), T.inverse() * T, "inverse*self"); reach(mmul(m, m), T * T, "square");
    for (size_t u = 0; u < upd.size(); ++u) { TF R = T; R.oplus(upd[u].second); M w = m; for (int i = 0; i < 3; ++i) { w.t[i] = m.t[i] + upd[u].first.t[i]; for (int j = 0; j < 3; ++j) { w.R[i][j] = 0; for (int l = 0; l < 3; ++l) w.R[i][j] += upd[u].first.R[i][l] * m.R[l][j]; } } reach(w, R, "oplus" + vf::str(u)); }
    { TF R; R.setRandom(); R.set(T.T()); reach(m, R, "set"); TF Q(T.T()); reach(m, Q, "from-T"); TF P(-2.5 * T.q(), T.t()); reach(m, P, "from-q,t"); TF S; S = T; c.check(S.isBinaryEqual(T), "equal", "the copy differs"); TF I = T; I.setIdentity(); reach(mid(), I, "setIdentity"); TF X; memcpy(X.qptr(), T.q().data(), 32); memcpy(X.tptr(), T.t().data(), 24); reach(m, X, "pointers"); c.check(TF().T() == Matrix4d::Identity(), "identity", ""); UT U(T); reach(m, (U.inverse().inverse() * T * U.inverse()).toTransformation(), "uncertain"); }
    if (n.depth < 2) { std::string a = saved(T); c.cur(n.w + " saved"); c.check(a.empty(), "serialization", a); }
    { Matrix<double, 6, 6> S = T.S(); M66 I = M66::Identity(); I.topRightCorner<3, 3>() = -rcross(T.t().cast<L>()).cast<double>(); c.check(S == I, "S", ""); }
    c.eval(n.depth > 0); c.trace(); c.state(ms(m) + vf::str(k.second));
  }
  c.sample("Z5 *g1 oplus3 inverse g2*");
}
// long histories of one operation: no drift off the unit quaternions
VF_PART(K03_histories, 4) {
  uint64_t n = 0; int N = c.thorough ? 20000 : 2000; std::vector<Vector3d> rv = {{0.1, 0.2, -0.3}, {1e-3, 2e-4, -5e-5}, {1, -1, 1}, {0, 0, (double)PI / 2}, {3, 0.1, 0}, {1e-9, 0, 2e-9}, {-2, 2, 1}, {0, 0, 0}};
  for (size_t i = 0; i < rv.size(); ++i) for (int op = 0; op < 5; ++op) {
    if (!c.mine(n++)) continue;
    V6 d; d << 0.01, -0.02, 0.005, rv[i]; TF g(axisAngle2quat(rv[i]), Vector3d(d.head<3>())), T, start(quats(13)[48 + i % 13], Vector3d(1, 2, 3)); T = start; UT U(T); L4 q = start.q().cast<L>(); q.normalize(); L3 t = start.t().cast<L>(); L4 s = rexp(rv[i].cast<L>()), gq = g.q().cast<L>(); gq.normalize(); L3 gt = g.t().cast<L>();
    for (int k = 0; k < N; ++k) {
      c.cur("operation %d with %s, %d times", op, s4(rv[i]).c_str(), k + 1);
      switch (op) {
        case 0: T.oplus(d); q = rmul(s, q); t += d.head<3>().cast<L>(); break;
        case 1: T = T * g; t = rrot(q) * gt + t; q = rmul(q, gq); break;
        case 2: T = g * T; t = rrot(gq) * t + gt; q = rmul(gq, q); break;
        case 3: T = T.inverse() * g; { L4 iq = q; iq.head<3>() *= -1; t = rrot(iq) * (gt - t); q = rmul(iq, gq); } break;
        default: T = (UT(T) * UT(g)).toTransformation(); T.oplus(-d); t = rrot(q) * gt + t - d.head<3>().cast<L>(); q = rmul(q, gq); { L4 is = s; is.head<3>() *= -1; q = rmul(is, q); } break;
      }
      double e = 1e-15 * (k + 4) * (1 + (double)t.norm()); c.check(std::fabs(T.q().norm() - 1) < 1e-15, "unit", "the quaternion has norm 1 + " + vf::str(T.q().norm() - 1)); c.check(std::min(dist(T.q(), q), dist(T.q(), (-q).eval())) < 4e-15 * (k + 4) && dist(T.t(), t) < e * 16, "value", "after " + vf::str(k + 1)); c.transition();
      if (k < 200 || k % 97 == 0) try { TF h = slerpTransformations(T, start, 0.3); c.check(std::fabs(h.q().norm() - 1) < 1e-15, "slerp", ""); } catch (const std::exception& x) { c.failpl("slerp", std::string("interpolation throws ") + x.what()); }
    }
    c.eval(); c.trace(); c.state(vf::str(i) + "," + vf::str(op));
  }
  c.sample("operation 0 with 0.1,0.2,-0.3, 2000 times");
}
// setRandom keeps its bounds; transformations from configuration
VF_PART(K03_make, 2) {
  uint64_t n = 0;
  for (double tm : {0.0, 1e-6, 1.0, 250.0}) for (double rm : {0.0, 1e-4, 1.0, 3.0}) for (int k = 0; k < 200; ++k) { if (!c.mine(n++)) continue; c.cur("setRandom(%g, %g)", tm, rm); UT U; TF& T = U; T.setRandom(tm, rm); c.check(T.t().norm() <= tm * (1 + 1e-12) && 2 * std::atan2(T.q().head<3>().norm(), std::fabs(T.q()[3])) <= rm * (1 + 1e-12), "bounds", "moves by " + vf::str(T.t().norm())); c.check(std::fabs(T.q().norm() - 1) < 1e-15, "unit", ""); c.check(dist(U.U(), U.U().transpose()) < 1e-12 && U.U().norm() > 0 && SelfAdjointEigenSolver<M66>(U.U()).eigenvalues().minCoeff() > -1e-12, "covariance", "a random covariance is none"); c.eval(tm > 0); c.transition(); c.trace(); TF R; R.setRandom(); c.check(std::fabs(R.q().norm() - 1) < 1e-15, "unit", "setRandom()"); }
  std::vector<Vector4d> Q = quats(13);
  // quaternions of any length, and ones that are almost but not quite unit (rounded by whoever wrote the file)
  for (double h : {2.5, 1.0, 0.01, 1 + 1e-3, 1 - 1e-4, 1 + 1e-5, 1 - 1e-6, 1 + 1e-7, 1 - 1e-8, 1 + 1e-9, 1 + 1e-11, 1 - 1e-13}) for (size_t i = 0; i < Q.size(); ++i) { if (!c.mine(n++)) continue; c.cur("configuration %zu", i); Vector3d t(1.5, -2, i); sm::BoostPropertyTree p; const char* nm = "xyzw"; for (int k = 0; k < 4; ++k) p.setDouble(std::string("a/q_a_b/") + nm[k], Q[i][k] * h); for (int k = 0; k < 3; ++k) p.setDouble(std::string("a/t_a_b_a/") + nm[k], t[k]); TF T = transformationFromPropertyTree(sm::ConstPropertyTree(p, "a")); c.check(dist(T.q(), Q[i]) < 1e-15 && T.t() == t, "configuration", "gives " + s4(T.q()) + ", " + s4(T.t())); c.eval(); c.trace(); c.state(vf::str(i)); for (int k = 0; k < 7; ++k) { sm::BoostPropertyTree b; for (int l = 0; l < 7; ++l) if (l != k) b.setDouble(std::string(l < 4 ? "a/q_a_b/" : "a/t_a_b_a/") + nm[l < 4 ? l : l - 4], 1); bool thr = false; try { transformationFromPropertyTree(sm::ConstPropertyTree(b, "a")); } catch (const std::exception&) { thr = true; } c.check(thr, "missing", "an incomplete configuration is accepted"); } }
  c.sample("setRandom(1, 3)");
}

// ------------------------------------------------------------------- K04
namespace {
struct TT { L4 q; L3 t; L44 T() const { return rT(q, t); } };
TT rt(const TF& x) { TT r{x.q().cast<L>(), x.t().cast<L>()}; r.q.normalize(); return r; }
L44 rinv(const L44& T) { L44 r = L44::Identity(); r.topLeftCorner<3, 3>() = T.topLeftCorner<3, 3>().transpose(); r.topRightCorner<3, 1>() = -(r.topLeftCorner<3, 3>() * T.topRightCorner<3, 1>()); return r; }
// the Jacobian of f at 0 by central differences; f is smooth, the error is about h^2
template <int R, int N> Matrix<double, R, N> numJ(const std::function<Matrix<L, R, 1>(const Matrix<L, N, 1>&)>& f, L h = 1e-6L) { Matrix<double, R, N> J; for (int k = 0; k < N; ++k) { Matrix<L, N, 1> d = Matrix<L, N, 1>::Zero(); d[k] = h; J.col(k) = ((f(d) - f(-d)) / (2 * h)).template cast<double>(); } return J; }
L44 pert(const L6& d, const L44& T) { L44 E = rT(rexp(L3(-d.tail<3>())), L3::Zero()); E = rT(rexp(L3(d.tail<3>())), L3::Zero()); E.topRightCorner<3, 1>() = d.head<3>(); return E * T; }  // first order: (I - d^box) T
L6 away(const L44& T, const L44& T0) { return unbox(L44::Identity() - T * rinv(T0)); }
std::vector<TF> some(int k) { std::vector<TF> r; std::vector<Vector4d> Q = quats(13); std::vector<Vector3d> ts = transl(); for (int i = 0; i < k; ++i) r.push_back(TF(Q[(i * 7 + 3) % Q.size()], ts[i % ts.size()])); return r; }
template <class A, class B> bool close(const A& a, const B& b, double rel) { double n = std::max((double)a.norm(), (double)b.norm()); return dist(a, b) <= rel * n + 1e-14; }
M66 diag(double a, double b) { M66 m = M66::Zero(); for (int i = 0; i < 6; ++i) m(i, i) = i < 3 ? a : b; return m; }
}
// every pair of transformations; the covariances are a basis, which decides all of them since U is linear in them
VF_PART(K04_compose, 8) {
  std::vector<TF> A = some(c.thorough ? 61 : 24); std::vector<M66> U = covs<6>(); uint64_t n = 0;
  for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < A.size(); ++j) {
    if (!c.mine(n++)) continue;
    const TF &a = A[i], &b = A[j]; L44 Ta = rt(a).T(), Tb = rt(b).T(), Tc = Ta * Tb; c.cur("transformation %zu with %zu", i, j);
    M66 Ja = numJ<6, 6>([&](const L6& d) { return away(pert(d, Ta) * Tb, Tc); }), Jb = numJ<6, 6>([&](const L6& d) { return away(Ta * pert(d, Tb), Tc); });
    const double R = 1e-8;
    for (size_t k = 0; k < U.size(); ++k) {
      const M66 &Ua = U[k], &Ub = U[(k * 5 + 2) % U.size()]; UT ua(a, Ua), ub(b, Ub), c1 = ua * ub; M66 xa = Ja * Ua * Ja.transpose(), xb = Jb * Ub * Jb.transpose();
      c.check(dist(c1.T(), Tc) <= 1e-14 * (1 + c1.t().norm()) && dist(c1.T(), (a * b).T()) == 0, "mean", "the product of uncertain transformations is another transformation"); c.check(close(c1.U(), xa + xb, R), "compose", "U of the product is off by " + vf::str(dist(c1.U(), xa + xb)));
      UT c2 = ua * b, c3 = a * ub; c.check(close(c2.U(), xa, R) && dist(c2.T(), c1.T()) == 0, "compose", "with a certain one on the right"); c.check(close(c3.U(), xb, R) && dist(c3.T(), c1.T()) == 0, "compose", "with a certain one on the left");
      const TF& base = ua; UT c4 = base * ub; c.check(c4.isBinaryEqual(c1), "virtual", "through the base class the uncertainty of the left one is lost"); c.check(close((UT(a) * ub).U(), xb, R) && close((ua * UT(b)).U(), xa, R), "compose", "with zero uncertainty");
      c.check(dist(c1.U(), c1.U().transpose()) <= 1e-14 * c1.U().norm(), "symmetric", ""); c.transition();
    }
    UT ua(a, U[j % U.size()]), ub(b, U.back()), uc(A[(i + j) % A.size()], U[i % U.size()]); UT l = (ua * ub) * uc, r = ua * (ub * uc); double sq3 = 10 + a.t().squaredNorm() + b.t().squaredNorm() + uc.t().squaredNorm(); c.check(dist(l.T(), r.T()) <= 1e-14 * sq3 && dist(l.U(), r.U()) <= 1e-15 * sq3 * sq3, "associative", "U differs by " + vf::str(dist(l.U(), r.U()))); UT iv = (ua * ub).inverse(), vi = ub.inverse() * ua.inverse(); c.check(close(iv.T(), vi.T(), 1e-13), "inverse", "of a product");
    M66 Ji = numJ<6, 6>([&](const L6& d) { return away(rinv(pert(d, Ta)), rinv(Ta)); }); c.check(close(ua.inverse().U(), Ji * ua.U() * Ji.transpose(), R), "inverse", "U of the inverse is off by " + vf::str(dist(ua.inverse().U(), Ji * ua.U() * Ji.transpose()))); c.check(close(ua.inverse().T(), rinv(Ta), 1e-14) && close(ua.inverse().inverse().U(), ua.U(), 1e-8 * (1 + a.t().squaredNorm())), "inverse", "twice");
    c.eval(i != j); c.trace(); c.state(vf::str(i) + "," + vf::str(j));
  }
  c.sample("transformation 3 with 17, U basis 4");
}
VF_PART(K04_single, 8) {
  std::vector<TF> A = some(61); std::vector<M66> U = covs<6>(); std::vector<Matrix4d> W = covs<4>(); std::vector<Matrix3d> V = covs<3>(); const double R = 1e-8; M66 OJ; Vector4d ps[] = {{0, 0, 0, 1}, {1, -2, 3, 1}, {4, 1, -0.5, 2}, {1, 2, 3, 0}, {0.1, 0.2, 0.3, -0.01}};
  for (size_t i = 0; i < A.size(); ++i) {
    if (!c.mine(i)) continue;
    const TF& a = A[i]; L44 T = rt(a).T(); c.cur("transformation %zu", i);
    // the perturbation of oplus, expressed as that of U
    M66 J = numJ<6, 6>([&](const L6& d) { L4 q = rmul(rexp(L3(d.tail<3>())), rt(a).q); return away(rT(q, rt(a).t + d.head<3>()), T); });
    c.check(close(a.S(), J, R), "S", "S() is not the change of perturbation of oplus");
    for (size_t k = 0; k < U.size(); ++k) {
      UT u(a); c.check(u.U() == M66::Zero(), "zero", ""); u.setUOplus(U[k]); c.check(close(u.U(), J * U[k] * J.transpose(), R), "set-U-oplus", "off by " + vf::str(dist(u.U(), J * U[k] * J.transpose()))); c.check(dist(u.UOplus(), U[k]) <= 1e-12 * (1 + std::pow(a.t().norm(), 2)), "U-oplus", "it does not come back"); u.setU(U[k]); c.check(u.U() == U[k], "set-U", ""); M66 ji = J.inverse(); c.check(close(u.UOplus(), ji * U[k] * ji.transpose(), R), "U-oplus", "off by " + vf::str(dist(u.UOplus(), ji * U[k] * ji.transpose())));
      for (auto& p : ps) {
        L4 pl = p.cast<L>(); Matrix<double, 4, 6> Jt = numJ<4, 6>([&](const L6& d) -> L4 { return pert(d, T) * pl; }); Matrix4d Jp = T.cast<double>(), Up = W[(k * 3 + i) % W.size()], x = Jt * U[k] * Jt.transpose(), y = Jp * Up * Jp.transpose(); UHP up(p, Up); HP hp(p);
        UHP r = u * up; c.check(close(r.toHomogeneous(), T * pl, 1e-14) && close(r.U4(), x + y, R), "point", "U4 of a transformed uncertain point is off by " + vf::str(dist(r.U4(), x + y))); UHP s = u * hp; c.check(close(s.toHomogeneous(), T * pl, 1e-14) && close(s.U4(), x, R), "point", "U4 of a transformed point is off"); UHP t = a * up; c.check(close(t.toHomogeneous(), T * pl, 1e-14) && close(t.U4(), y, R), "point", "U4 of an uncertain point transformed with certainty is off"); const TF& base = u; c.check((base * up).isBinaryEqual(r), "virtual", "through the base class it is another point"); c.check(u * p == a * p && u * Vector3d(p.head<3>()) == a * Vector3d(p.head<3>()), "point", "of Eigen type"); c.transition();
      }
      UT b(A[(i * 5 + k) % A.size()], U[(k + 7) % U.size()]); UHP up(ps[1], W[k % W.size()]), l = (b * u) * up, r = b * (u * up); c.check(close(l.toHomogeneous(), r.toHomogeneous(), 1e-14) && close(l.U4(), r.U4(), 1e-12), "associative", "with a point");
      UncertainVector3 v(Vector3d(1, -2, k), V[k % V.size()]), w = u.rotate(v); Matrix3d C = T.topLeftCorner<3, 3>().cast<double>(); c.check(close(w.mean(), C * v.mean(), 1e-14) && close(w.covariance(), C * v.covariance() * C.transpose(), 1e-14), "rotate", "of an uncertain vector");
      UT k1(u.T(), U[k]), k2(u.q(), u.t(), U[k]), k3(u.T(), 2, 3), k4(u.q(), u.t(), 2, 3), k5(a, 2, 3), k6(u.T()), k7(u.q(), u.t()); c.check(close(k1.T(), T, 1e-14) && close(k2.T(), T, 1e-14) && k1.U() == U[k] && k2.U() == U[k] && k3.U() == diag(2, 3) && k4.U() == diag(2, 3) && k5.U() == diag(2, 3) && k6.U() == M66::Zero() && k7.U() == M66::Zero() && close(k3.T(), T, 1e-14) && close(k4.T(), T, 1e-14) && close(k6.T(), T, 1e-14), "constructors", "");
      c.check(UT().U() == M66::Zero() && UT().T() == Matrix4d::Identity() && u.toTransformation().isBinaryEqual(a) && u.isBinaryEqual(UT(a, U[k])) && !u.isBinaryEqual(UT(a, U[k] * 1.5)) && !u.isBinaryEqual(UT(A[(i + 1) % A.size()], U[k])), "equal", "isBinaryEqual"); if (i < 8) { std::string s = saved(u); c.check(s.empty(), "serialization", s); }
    }
    c.eval(i > 0); c.trace(); c.state(vf::str(i));
  }
  c.sample("transformation 3, U basis 4");
}
namespace {
template <int D> void vectors(vf::Ctx& c, uint64_t& n) {
  typedef UncertainVector<D> V; typedef Matrix<double, D, 1> v_t; typedef Matrix<double, D, D> m_t; typedef Matrix<L, D, 1> l_t; typedef Matrix<L, 1, 1> l1; std::vector<v_t> vs; double g[] = {-2, -0.5, 0, 1, 3};
  for (int k = 0; k < 40; ++k) { v_t v; for (int i = 0; i < D; ++i) v[i] = g[(k * (i + 1) + k / 5 + i * i) % 5]; vs.push_back(v); } std::vector<m_t> E = covs<D>(); double ss[] = {-3, 0, 0.25, 7}; const double R = 1e-9;
  for (size_t i = 0; i < vs.size(); ++i) for (size_t j = 0; j < vs.size(); ++j) for (size_t k = 0; k < E.size(); ++k) {
    if (!c.mine(n++)) continue;
    V a(vs[i], E[k]), b(vs[j], E[(k * 2 + 1) % E.size()]); c.cur("vectors %s and %s of dimension %d, E %zu", s4(vs[i]).c_str(), s4(vs[j]).c_str(), D, k); l_t al = vs[i].template cast<L>(), bl = vs[j].template cast<L>(); m_t Ea = a.E(), Eb = b.E();
    V s = a + b, d = a - b; c.check(s.v() == vs[i] + vs[j] && s.E() == Ea + Eb && d.mean() == vs[i] - vs[j] && d.covariance() == Ea + Eb, "sum", ""); c.check((a + vs[j]).isBinaryEqual(V(s.v(), Ea)) && (a - vs[j]).isBinaryEqual(V(d.v(), Ea)), "sum", "with a certain vector");
    Matrix<double, 1, D> Ja = numJ<1, D>([&](const l_t& x) -> l1 { return l1((al + x).dot(bl)); }), Jb = numJ<1, D>([&](const l_t& x) -> l1 { return l1(al.dot(bl + x)); }); double xa = (Ja * Ea * Ja.transpose())(0), xb = (Jb * Eb * Jb.transpose())(0); UncertainVector<1> t = a.dot(b); c.check(std::fabs(t.v() - vs[i].dot(vs[j])) < 1e-13 && std::fabs(t.E() - xa - xb) < R * (1 + xa + xb), "dot", "the variance is " + vf::str(t.E()) + " instead of " + vf::str(xa + xb)); t = a.dot(vs[j]); c.check(std::fabs(t.E() - xa) < R * (1 + xa) && std::fabs(t.v() - vs[i].dot(vs[j])) < 1e-13, "dot", "with a certain vector");
    for (double q : ss) { UncertainVector<1> u(q, 0.5); m_t Jv = m_t::Identity() * q; m_t x = Jv * Ea * Jv.transpose() + vs[i] * 0.5 * vs[i].transpose(); V p = a * u; c.check(close(p.v(), vs[i] * q, 1e-15) && close(p.E(), x, 1e-14), "scale", "by an uncertain scalar"); c.check((u * a).isBinaryEqual(p), "scale", "from the left"); V r = a * q; c.check(close(r.v(), vs[i] * q, 1e-15) && close(r.E(), Ea * q * q, 1e-14), "scale", "by a number"); V w = u * vs[i]; c.check(close(w.v(), vs[i] * q, 1e-15) && close(w.E(), vs[i] * vs[i].transpose() * 0.5, 1e-14), "scale", "of a certain vector"); }
    m_t Mx; for (int r = 0; r < D; ++r) for (int q = 0; q < D; ++q) Mx(r, q) = g[(r * 3 + q * 2 + k) % 5]; V p = ::operator*<D>(Mx, a); c.check(close(p.v(), Mx * vs[i], 1e-14) && close(p.E(), Mx * Ea * Mx.transpose(), 1e-14), "matrix", "");
    if (vs[i].norm() > 0) { m_t N = numJ<D, D>([&](const l_t& x) -> l_t { return (al + x).normalized(); }); V z = a.normalized(); V y = a; y.normalize(); c.check(close(z.v(), vs[i].normalized(), 1e-15) && close(z.E(), N * Ea * N.transpose(), R), "normalize", "the covariance is off by " + vf::str(dist(z.E(), N * Ea * N.transpose()))); c.check(close(y.v(), z.v(), 1e-15) && close(y.E(), z.E(), 1e-14), "normalize", "normalized() and normalize() differ"); }
    V x(vs[i]); c.check(x.E() == m_t::Zero() && V().v() == v_t::Zero() && V().E() == m_t::Zero(), "constructors", ""); x.setCovariance(Eb); x.setMean(vs[j]); c.check(x.isBinaryEqual(b) && (a.isBinaryEqual(b) == (vs[i] == vs[j] && Ea == Eb)), "equal", ""); x.setRandom(); c.check(dist(x.E(), x.E().transpose()) < 1e-14 && x.E()(0, 0) >= 1, "random", ""); x.setZero(); c.check(x.isBinaryEqual(V()), "zero", ""); if (j == 0 && k < 3) { std::string q = saved(a); c.check(q.empty(), "serialization", q); }
    c.eval(i != j); c.transition(10); c.trace(); c.state(vf::str(D) + "," + vf::str(i) + "," + vf::str(j) + "," + vf::str(k));
  }
}
}
VF_PART(K04_vectors, 8) {
  uint64_t n = 0; vectors<2>(c, n); vectors<3>(c, n); vectors<4>(c, n); typedef UncertainVector<1> S; double g[] = {-1e6, -3, -0.5, 0, 1e-3, 1, 7}, e[] = {0, 1e-4, 2};
  for (double a : g) for (double b : g) for (double x : e) for (double y : e) {
    if (!c.mine(n++)) continue; c.cur("scalars %g +- %g and %g +- %g", a, x, b, y); S p(a, x), q(b, y); auto eq = [&](const S& s, double v, double E, const char* w) { c.check(std::fabs(s.v() - v) <= 1e-15 * std::fabs(v) && std::fabs(s.E() - E) <= 4e-15 * E, w, "gives " + vf::str(s.v()) + " +- " + vf::str(s.E()) + " instead of " + vf::str(v) + " +- " + vf::str(E)); };
    eq(p + q, a + b, x + y, "sum"); eq(p - q, a - b, x + y, "sum"); eq(p + b, a + b, x, "sum"); eq(p - b, a - b, x, "sum"); eq(p * q, a * b, b * b * x + a * a * y, "scale"); eq(p.dot(q), a * b, b * b * x + a * a * y, "dot"); eq(p * b, a * b, b * b * x, "scale"); eq(p.dot(b), a * b, b * b * x, "dot"); if (b != 0) { eq(p / q, a / b, x / b / b + a * a / b / b / b / b * y, "divide"); eq(p / b, a / b, x / b / b, "divide"); }
    S r(a); c.check(r.E() == 0 && S().v() == 0 && S().E() == 0, "constructors", ""); r.setMean(b); r.setCovariance(y); c.check(r.isBinaryEqual(q) && r.mean() == b && r.covariance() == y, "equal", ""); r.setRandom(); c.check(r.E() >= 0, "random", ""); r.setZero(); c.check(r.isBinaryEqual(S()), "zero", ""); std::string s = saved(p); c.check(s.empty(), "serialization", s); c.eval(); c.trace(); c.transition(10);
  }
  c.sample("vectors -2,0,1 and 3,1,-0.5 of dimension 3, E 4");
}
// ------------------------------------------------------------------- K05
namespace {
std::vector<Vector4d> hpoints() { std::vector<Vector4d> r; double g[] = {-2, 0, 0.5, 3}; for (double x : g) for (double y : g) for (double z : {-1.0, 0.0, 4.0}) for (double w : {1.0, 2.0, -0.5, 0.01}) r.push_back(Vector4d(x, y, z, w)); return r; }
Vector3d eu(const Vector4d& h) { return h.head<3>() / h[3]; }
Matrix<double, 3, 4> euJ(const Vector4d& h) { return numJ<3, 4>([&](const L4& d) -> L3 { L4 x = h.cast<L>() + d; return x.head<3>() / x[3]; }, 1e-7L * fabsl((L)h[3])); }
}
VF_PART(K05_pairs, 8) {
  std::vector<Vector4d> P = hpoints(); std::vector<Matrix4d> W = covs<4>(); uint64_t n = 0; const double R = 1e-8;
  for (size_t i = 0; i < P.size(); ++i) for (size_t j = 0; j < P.size(); ++j) {
    if (!c.mine(n++)) continue;
    const Vector4d &a = P[i], &b = P[j]; Matrix4d Ua = W[(i + j) % W.size()], Ub = W[(i * 3 + j * 5) % W.size()]; HP ha(a), hb(b); UHP ua(a, Ua), ub(b, Ub); L4 al = a.cast<L>(), bl = b.cast<L>();
    for (int sg : {1, -1}) {
      c.cur("points %s %c %s, U %zu, %zu", s4(a).c_str(), sg > 0 ? '+' : '-', s4(b).c_str(), (i + j) % W.size(), (i * 3 + j * 5) % W.size());
      Vector3d s = eu(a) + sg * eu(b); HP r = sg > 0 ? ha + hb : ha - hb; c.check(close(r.toEuclidean(), s, 1e-13 / 1e-2), "sum", "gives " + s4(r.toEuclidean()));
      auto f = [&](const L4& x, const L4& y) -> L4 { L4 z; z << x.head<3>() * y[3] + sg * y.head<3>() * x[3], x[3] * y[3]; return z; };
      c.check(close(r.toHomogeneous(), f(al, bl), 1e-14), "homogeneous", ""); Matrix4d Ja = numJ<4, 4>([&](const L4& d) { return f(al + d, bl); }), Jb = numJ<4, 4>([&](const L4& d) { return f(al, bl + d); }); Matrix4d xa = Ja * Ua * Ja.transpose(), xb = Jb * Ub * Jb.transpose(); Matrix3d ea = euJ(a) * Ua * euJ(a).transpose(), eb = euJ(b) * Ub * euJ(b).transpose(); double es = euJ(a).squaredNorm() * Ua.norm() + euJ(b).squaredNorm() * Ub.norm();
      auto one = [&](const UHP& u, const Matrix4d& x, const Matrix3d& e, const char* w) { c.check(u.toHomogeneous() == r.toHomogeneous(), "mean", w); c.check(close(u.U4(), x, R), "U4", std::string(w) + ": off by " + vf::str(dist(u.U4(), x))); c.check(dist(u.U3(), e) <= 1e-6 * e.norm() + 1e-13 * es, "U3", std::string(w) + ": the covariance of the Euclidean point is off by " + vf::str(dist(u.U3(), e))); };
      one(sg > 0 ? ua + ub : ua - ub, xa + xb, ea + eb, "both uncertain"); one(sg > 0 ? ua + hb : ua - hb, xa, ea, "left uncertain"); one(sg > 0 ? ha + ub : ha - ub, xb, eb, "right uncertain"); const HP& base = ua; one(sg > 0 ? base + ub : base - ub, xa + xb, ea + eb, "both uncertain, through the base class"); c.transition(4);
    }
    double k = b[0] == 0 ? -3 : b[0]; c.check(close(HP(Vector4d(a * k)).toEuclidean(), ha.toEuclidean(), 1e-14), "projective", "multiples differ"); c.check(ha.isBinaryEqual(hb) == (i == j) && ua.isBinaryEqual(ub) == (i == j && Ua == Ub) && !ua.isBinaryEqual(UHP(a, Matrix4d(Ua * 2))), "equal", "");
    c.eval(i != j); c.trace(); c.state(vf::str(i) + "," + vf::str(j));
  }
  c.sample("points 3,0.5,4,2 - -2,0,-1,0.01, U 3, 7");
}
// the same points with homogeneous coordinates of any magnitude, as they arise in long sums
VF_PART(K05_scales, 8) {
  std::vector<Vector4d> P = hpoints(); std::vector<Matrix4d> W = covs<4>(); uint64_t n = 0; std::vector<double> S; for (int e = c.thorough ? -36 : -30; e <= 36; e += c.thorough ? 2 : 6) { S.push_back(std::ldexp(1, e)); S.push_back(-std::ldexp(3, e)); }
  for (size_t i = 0; i < P.size(); i += 17) for (size_t j = 5; j < P.size(); j += 29) for (size_t k = 0; k < S.size(); ++k) for (size_t l = 0; l < S.size(); ++l) {
    if (!c.mine(n++)) continue;
    const Vector4d a = P[i] * S[k], b = P[j] * S[l]; Matrix4d Ua = W[(i + j) % W.size()] * (S[k] * S[k]), Ub = W[(i * 3 + j * 5 + 1) % W.size()] * (S[l] * S[l]); HP ha(a), hb(b); UHP ua(a, Ua), ub(b, Ub); Matrix<L, 3, 4> Ea, Eb; L3 ea = a.head<3>().cast<L>() / (L)a[3], eb = b.head<3>().cast<L>() / (L)b[3]; Ea << L33::Identity() / (L)a[3], -ea / (L)a[3]; Eb << L33::Identity() / (L)b[3], -eb / (L)b[3];
    Matrix3d ca = (Ea * Ua.cast<L>() * Ea.transpose()).cast<double>(), cb = (Eb * Ub.cast<L>() * Eb.transpose()).cast<double>(); double sz = (double)(Ea.squaredNorm() * (L)Ua.norm() + Eb.squaredNorm() * (L)Ub.norm());
    for (int sg : {1, -1}) {
      c.cur("points %s %c %s, covariances %zu, %zu", s4(a).c_str(), sg > 0 ? '+' : '-', s4(b).c_str(), (i + j) % W.size(), (i * 3 + j * 5 + 1) % W.size()); Vector3d s = (ea + (L)sg * eb).cast<double>(); double len = (double)(ea.norm() + eb.norm());
      auto one = [&](const UHP& u, const Matrix3d& w, const char* what) { c.check(dist(u.toEuclidean(), s) <= 1e-14 * len, "sum", what); c.check(dist(u.U3(), w) <= 1e-12 * sz, "U3", std::string(what) + ": off by " + vf::str(dist(u.U3(), w))); UHP v = u; v.normalize(); c.check(dist(v.toEuclidean(), s) <= 1e-13 * len && dist(v.U3(), w) <= 1e-11 * sz * (1 + len * len), "normalize", what); };
      c.check(dist((sg > 0 ? ha + hb : ha - hb).toEuclidean(), s) <= 1e-14 * len, "sum", "certain"); one(sg > 0 ? ua + ub : ua - ub, ca + cb, "both uncertain"); one(sg > 0 ? ua + hb : ua - hb, ca, "left uncertain"); one(sg > 0 ? ha + ub : ha - ub, cb, "right uncertain"); c.transition(4);
    }
    c.eval(k != l); c.trace(); c.state(vf::str(i) + "," + vf::str(j) + "," + vf::str(k) + "," + vf::str(l));
  }
  c.sample("points 64,32,-32,64 + 1,1,0.5,0.25");
}
VF_PART(K05_points, 8) {
  std::vector<Vector4d> P = hpoints(), I; for (double x : {0.0, 1.0, -3.0}) for (double y : {0.0, 2.0}) for (double z : {0.0, -1.0}) if (x || y || z) I.push_back(Vector4d(x, y, z, 0)); std::vector<Matrix4d> W = covs<4>(); std::vector<Matrix3d> V = covs<3>(); const double R = 1e-8;
  for (size_t i = 0; i < P.size() + I.size(); ++i) {
    if (!c.mine(i)) continue;
    bool fin = i < P.size(); Vector4d p = fin ? P[i] : I[i - P.size()]; HP h(p); c.cur("point " + s4(p)); Vector3d e = p.head<3>() / p[3]; L4 pl = p.cast<L>();
    c.check(h.toHomogeneous() == p && h.atInfinity() == !fin && h.isVector() == !fin, "value", ""); if (fin) c.check(close(h.toEuclidean(), e, 1e-15), "euclidean", ""); else { bool t = false; try { h.toEuclidean(); } catch (const std::exception&) { t = true; } c.check(t, "infinity", "a point at infinity has a Euclidean form"); }
    HP::homogeneous_jacobian_t J = HP::homogeneous_jacobian_t::Constant(77); c.check(h.toHomogeneousAndJacobian(J) == p, "value", ""); Matrix<double, 4, 3> jr = numJ<4, 3>([&](const L3& d) { return rmul(rexp(d), pl); }); c.check(close(J, jr, R), "oplus-jacobian", "off by " + vf::str(dist(J, jr)));
    if (fin) { HP::euclidean_jacobian_t K = HP::euclidean_jacobian_t::Constant(77); c.check(close(h.toEuclideanAndJacobian(K), e, 1e-15), "euclidean", "with Jacobian"); Matrix3d kr = numJ<3, 3>([&](const L3& d) -> L3 { L4 x = rmul(rexp(d), pl); return x.head<3>() / x[3]; }, 1e-9L); c.check(close(K, kr, 1e-6), "euclidean-jacobian", "off by " + vf::str(dist(K, kr))); }
    for (Vector3d d : {Vector3d(0, 0, 0), Vector3d(1e-6, 0, 1e-7), Vector3d(0.3, -1, 2), Vector3d(0, 4, 0)}) { HP o = h; o.oplus(d); c.check(close(o.toHomogeneous(), rmul(rexp(d.cast<L>()), pl), 1e-14), "oplus", ""); c.check(std::fabs(o.toHomogeneous().norm() / p.norm() - 1) < 1e-15 * 4, "oplus", "changes the length"); c.transition(); }
    { HP o = h; o.normalize(); c.check(close(o.toHomogeneous(), p.normalized(), 1e-15), "normalize", ""); o = h; o.scale(-2.5); c.check(close(o.toHomogeneous().head<3>().eval(), (p.head<3>() * -2.5).eval(), 1e-15) && o.toHomogeneous()[3] == p[3], "scale", ""); o = h; if (p.head<3>().norm() > 0) { o.convertToVector(); c.check(o.isVector() && o.toHomogeneous().head<3>() == p.head<3>(), "vector", ""); o.convertToPoint(); c.check(!o.isVector() && close(o.toEuclidean(), p.head<3>().normalized().eval(), 1e-15), "vector", "back to a point"); } if (fin) { bool t = false; try { HP q = h; q.convertToPoint(); } catch (const std::exception&) { t = true; } c.check(t, "vector", "a point is no vector"); }
      o.setZero(); c.check(o.toEuclidean() == Vector3d(0, 0, 0) && HP().isBinaryEqual(o), "zero", ""); o.setRandom(); c.check(std::fabs(o.toHomogeneous().norm() - 1) < 1e-15, "random", ""); o = p; c.check(o.isBinaryEqual(h), "assign", ""); o = Vector3d(p.head<3>()); c.check(o.toHomogeneous().head<3>() == p.head<3>() && o.toHomogeneous()[3] == 1 && o.isBinaryEqual(HP(Vector3d(p.head<3>()))), "assign", "a Euclidean point"); o.set(p); c.check(o.isBinaryEqual(h), "assign", "set"); o.set(p.head<3>().eval()); c.check(o.toHomogeneous()[3] == 1 && o.toHomogeneous().head<3>() == p.head<3>(), "assign", "set"); VectorXd w = VectorXd::Ones(i % 3 == 0 ? 2 : 5); bool t = false; try { o.set(w); } catch (const HP::Exception&) { t = true; } c.check(t, "assign", "a vector of another size"); t = false; try { HP z((Vector4d)Vector4d::Zero()); } catch (const HP::Exception&) { t = true; } bool t2 = false; try { o = Vector4d(0, 0, 0, 0); } catch (const HP::Exception&) { t2 = true; } c.check(t && t2, "zero", "(0,0,0,0) is no point"); memcpy(o.pptr(), p.data(), 32); c.check(o.isBinaryEqual(h), "assign", "pptr"); }
    std::string s = saved(h); c.check(s.empty(), "serialization", s);
    for (size_t k = 0; k < W.size(); ++k) {
      UHP u(p, W[k]), v(h, W[k]), z(p), y(h); c.check(u.U4() == W[k] && v.isBinaryEqual(u) && z.U4() == Matrix4d::Zero() && y.isBinaryEqual(z) && UHP().U4() == Matrix4d::Zero(), "constructors", ""); z.setU(W[k]); c.check(z.isBinaryEqual(u), "constructors", "setU");
      if (fin) { Matrix3d e3 = euJ(p) * W[k] * euJ(p).transpose(); c.check(close(u.U3(), e3, 1e-6), "U3", "off by " + vf::str(dist(u.U3(), e3))); }
      UHP q = u; q.normalize(); Matrix4d N = numJ<4, 4>([&](const L4& d) -> L4 { return (pl + d).normalized(); }); c.check(close(q.toHomogeneous(), p.normalized(), 1e-15) && close(q.U4(), N * W[k] * N.transpose(), R), "normalize", "U4 is off by " + vf::str(dist(q.U4(), N * W[k] * N.transpose()))); if (fin) c.check(close(q.U3(), u.U3(), 1e-9), "normalize", "changes the uncertainty of the Euclidean point"); HP& base = u; base.normalize(); c.check(u.isBinaryEqual(q), "virtual", "normalize() through the base class");
      Matrix3d av = V[k % V.size()]; L4 ql = q.toHomogeneous().cast<L>(); Matrix<double, 4, 3> jq = numJ<4, 3>([&](const L3& d) { return rmul(rexp(d), ql); }); q.setUOplus(av); c.check(close(q.U4(), jq * av * jq.transpose(), R), "U-oplus", "off by " + vf::str(dist(q.U4(), jq * av * jq.transpose()))); c.check(close(q.U_av_form(), av, 1e-13), "U-oplus", "it does not come back"); UHP w(q.toHomogeneous(), av), x((HP)q, av); c.check(w.isBinaryEqual(q) && x.isBinaryEqual(q), "constructors", "from the oplus covariance"); if (std::fabs(p.norm() - 1) > 1e-5) { bool t = false; UHP b(p); try { b.setUOplus(av); } catch (const HP::Exception&) { t = true; } bool t2 = false; try { b.U_av_form(); } catch (const HP::Exception&) { t2 = true; } c.check(t && t2, "U-oplus", "a point that is not of unit length is accepted"); }
      UHP f(Vector3d(p.head<3>()), av); c.check(close(f.U3(), av, 1e-15) && f.toHomogeneous()[3] == 1 && UHP(Vector3d(p.head<3>())).U4() == Matrix4d::Zero(), "constructors", "from a Euclidean point"); if (k < 4) { std::string s = saved(v); c.check(s.empty(), "serialization", "uncertain, " + s); } UHP rd; rd.setRandom(); c.check(SelfAdjointEigenSolver<Matrix4d>(rd.U4()).eigenvalues().minCoeff() > 0 && dist(rd.U4(), rd.U4().transpose()) < 1e-14, "random", ""); c.transition();
    }
    c.eval(fin); c.trace(); c.state(s4(p));
  }
  c.sample("point 3,0.5,4,2");
}
// ------------------------------------------------------------------- K06
VF_PART(K06_matrices, 8) {
  std::vector<TF> A; { std::vector<Vector4d> Q = quats(13); std::vector<Vector3d> ts = transl(); for (auto& q : Q) for (auto& t : ts) A.push_back(TF(q, t)); } Vector4d ps[] = {{0, 0, 0, 1}, {1, -2, 3, 1}, {4, 1, -0.5, 2}, {1, 2, 3, 0}, {0.1, 0.2, 0.3, -0.01}}; const double R = 1e-8;
  for (size_t i = 0; i < A.size(); ++i) {
    if (!c.mine(i)) continue;
    c.cur("transformation %zu", i); Matrix4d T = A[i].T(); L44 Tl = rt(A[i]).T(); double sc = 1 + A[i].t().norm();
    Matrix3d C = T.topLeftCorner<3, 3>(); Vector3d r = T.topRightCorner<3, 1>(); c.check(rt2Transform(C, r) == T && transform2C(T) == C && transform2rho(T) == r && transform2rhoHomogeneous(T) == T.col(3), "parts", "");
    Matrix4d iT = inverseTransform(T); c.check(dist(iT, rinv(Tl)) < 1e-15 * 8 * sc && dist(iT * T, Matrix4d::Identity()) < 1e-14 * sc && dist(T * iT, Matrix4d::Identity()) < 1e-14 * sc, "inverse", "");
    V6 x = fromTEuler(T); c.check(x.norm() == x.norm() && dist(toTEuler(x), T) < 5e-8, "euler", "the parameters " + s4(x) + " are those of another transformation"); c.check(toTEuler(x) == toTEuler(x[0], x[1], x[2], x[3], x[4], x[5]), "euler", "the two functions differ");
    for (auto& p : ps) {
      L4 pl = p.cast<L>(); Vector4d o = Vector4d::Constant(77); Matrix<double, 4, 6> B = Matrix<double, 4, 6>::Constant(77); transformationAndJacobian(T, p, o, B); Matrix<double, 4, 6> Br = numJ<4, 6>([&](const L6& d) -> L4 { return pert(d, Tl) * pl; }); c.check(close(o, Tl * pl, 1e-14) && close(B, Br, R), "jacobian", "of the transformed point is off by " + vf::str(dist(B, Br)));
      c.check(close(boxMinus(o), Br, R), "box-minus", ""); o.setConstant(77); B.setConstant(77); inverseTransformationAndJacobian(T, p, o, B); Br = numJ<4, 6>([&](const L6& d) -> L4 { return rinv(pert(d, Tl)) * pl; }); c.check(dist(o, rinv(Tl) * pl) < 1e-14 * sc * (1 + p.norm()) && close(B, Br, R), "jacobian", "of the point transformed by the inverse is off by " + vf::str(dist(B, Br)));
      for (int k = 0; k < 6; ++k) { V6 d = V6::Zero(); d[k] = 1; d[(k + 2) % 6] = -0.5; c.check(dist(boxPlus(d), rbox(d.cast<L>())) == 0 && dist(boxMinus(p) * d, -boxPlus(d) * p) < 1e-15 * 4, "box", "boxMinus(p) d is not -boxPlus(d) p"); c.check(dist(boxPlus(boxTimes(T) * d), T * boxPlus(d) * iT) < 1e-14 * sc, "box-times", "it does not carry perturbations through the transformation"); V6 e; e << 1, 2, 3, -1, 0.5, k; c.check(dist(boxPlus(d + e), boxPlus(d) + boxPlus(e)) == 0, "box", "not linear"); c.transition(); }
    }
    for (size_t j = 0; j < A.size(); j += 7) { Matrix4d S = A[j].T(); double q = sc * (1 + A[j].t().norm()); c.check(dist(boxTimes(T * S), boxTimes(T) * boxTimes(S)) < 1e-14 * q, "box-times", "not a homomorphism"); c.transition(); } c.check(dist(boxTimes(iT) * boxTimes(T), M66::Identity()) < 1e-13 * sc, "box-times", "of the inverse");
    c.eval(i > 0); c.trace(); c.state(vf::str(i));
  }
  c.sample("transformation 5");
}
VF_PART(K06_homogeneous, 2) {
  std::vector<Vector4d> P = hpoints(); uint64_t n = 0;
  for (auto& p : P) { if (!c.mine(n++)) continue; c.cur("point " + s4(p)); Matrix<double, 4, 3> J = Matrix<double, 4, 3>::Constant(77); Vector3d v = p.head<3>(); Vector4d h = toHomogeneous(v, &J); c.check(h.head<3>() == v && h[3] == 1 && J == (Matrix<double, 4, 3>::Identity()) && toHomogeneous(v) == h && toHomogeneousJacobian(v) == J, "to", ""); Matrix<double, 3, 4> K = Matrix<double, 3, 4>::Constant(77); Vector3d e = fromHomogeneous(p, &K); c.check(close(e, eu(p), 1e-15) && fromHomogeneous(p) == e && close(K, euJ(p), 1e-8) && fromHomogeneousJacobian(p) == K, "from", "the Jacobian is off by " + vf::str(dist(K, euJ(p)))); c.check(fromHomogeneous(h) == v, "inverse", "");
    for (auto& q : P) { Vector4d s = toHomogeneousPlus(p) * q, d = toHomogeneousMinus(p) * q; c.check(close(eu(s), eu(p) + eu(q), 1e-12) && close(eu(d), eu(q) - eu(p), 1e-11), "plus", "with " + s4(q)); c.transition(); } c.check(close(normalize<4>(p), p.normalized(), 1e-15), "normalize", ""); c.eval(); c.trace(); c.state(s4(p)); }
  for (int r = 1; r < 6; ++r) for (int k = 0; k < 5; ++k) { c.cur("%dx%d", r, k); MatrixXd m(r, k); for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) m(i, j) = i * 2.5 - j * j + 1; MatrixXd h = toHomogeneousColumns(m); c.check(h.rows() == r + 1 && h.cols() == k && h.topRows(r) == m && (k == 0 || (h.row(r).array() == 1).all()), "columns", ""); for (int j = 0; j < k; ++j) h.col(j) *= j - 2.5; MatrixXd b = fromHomogeneousColumns(h); c.check(b.rows() == r && b.cols() == k && (k == 0 || (b - m).norm() < 1e-13), "columns", "back"); bool t = false; try { fromHomogeneousColumns(MatrixXd::Ones(1, k)); } catch (const std::exception&) { t = true; } c.check(t, "columns", "a single row"); }
  c.sample("point 3,0.5,4,2");
}
namespace {
// the smallest sum of squared distances of a rigid alignment, from Horn's quaternion matrix in extended precision
L best(const MatrixXd& a, const MatrixXd& b, const VectorXd& w, bool centred, L* gap = NULL) {
  Matrix<L, 3, 1> ca = L3::Zero(), cb = L3::Zero(); int n = a.cols(); if (centred) for (int i = 0; i < n; ++i) { ca += a.col(i).cast<L>() / n; cb += b.col(i).cast<L>() / n; } L33 S = L33::Zero(); L sq = 0;
  for (int i = 0; i < n; ++i) { L3 x = a.col(i).cast<L>() - ca, y = b.col(i).cast<L>() - cb; S += (L)w[i] * y * x.transpose(); sq += (L)w[i] * (x.squaredNorm() + y.squaredNorm()); }
  L44 N; N << S.trace(), S(1, 2) - S(2, 1), S(2, 0) - S(0, 2), S(0, 1) - S(1, 0), 0, S(0, 0) - S(1, 1) - S(2, 2), S(0, 1) + S(1, 0), S(2, 0) + S(0, 2), 0, 0, S(1, 1) - S(0, 0) - S(2, 2), S(1, 2) + S(2, 1), 0, 0, 0, S(2, 2) - S(0, 0) - S(1, 1); for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) N(i, j) = N(j, i);
  SelfAdjointEigenSolver<L44> s(N); if (gap) *gap = s.eigenvalues()[3] - s.eigenvalues()[2]; return sq - 2 * s.eigenvalues()[3];
}
std::vector<MatrixXd> clouds() { std::vector<MatrixXd> r; Vector3d g[] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 2, 0}, {-1, 1, 2}, {2, 0, 0}, {3, -2, 5}}; for (int m = 1; m < 256; ++m) { if (__builtin_popcount(m) > 5) continue; MatrixXd a(3, __builtin_popcount(m)); int k = 0; for (int i = 0; i < 8; ++i) if (m >> i & 1) a.col(k++) = g[i]; r.push_back(a); } return r; }
}
// every cloud of up to five of eight points, exactly transformed, reflected or disturbed: the alignment found is a proper one and no other is better
VF_PART(K06_alignment, 8) {
  std::vector<MatrixXd> A = clouds(); std::vector<TF> G; { std::vector<Vector4d> Q = quats(13); std::vector<Vector3d> ts = {{0, 0, 0}, {1, -2, 3}, {-4, 100, 0.25}}; for (size_t i = 0; i < Q.size(); i += c.thorough ? 1 : 5) G.push_back(TF(Q[i], ts[i % 3])); } uint64_t n = 0;
  for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < G.size(); ++j) for (int kind = 0; kind < 4; ++kind) {
    if (!c.mine(n++)) continue;
    c.cur("cloud %zu, transformation %zu, kind %d", i, j, kind); MatrixXd b = A[i], a = b; int k = b.cols(); if (kind == 1) a.row(0) *= -1; if (kind == 2) for (int x = 0; x < k; ++x) a.col(x) += 0.3 * Vector3d(std::sin(x * 3 + i), std::cos(x * 5.0 + i), std::sin(x * 7 + 1.0)); if (kind == 3) for (int x = 0; x < k; ++x) a.col(x) = A[(i * 7 + 3) % A.size()].col(x % A[(i * 7 + 3) % A.size()].cols()); for (int x = 0; x < k; ++x) a.col(x) = G[j] * Vector3d(a.col(x));
    Matrix4d T = threePointSvd(a, b); c.check(proper(T.topLeftCorner<3, 3>(), 1e-13) && T.row(3) == Vector4d(0, 0, 0, 1).transpose(), "proper", "the result is no rigid transformation"); double cost = 0, sz = 1; for (int x = 0; x < k; ++x) { cost += (a.col(x) - (T * toHomogeneous(b.col(x))).head<3>()).squaredNorm(); sz += a.col(x).squaredNorm() + b.col(x).squaredNorm(); } L gap; double opt = (double)best(a, b, VectorXd::Ones(k), true, &gap);
    c.check(cost <= opt + 1e-13 * sz * k, "optimal", "the error is " + vf::str(cost) + ", but " + vf::str(opt) + " is possible"); if (kind == 0) c.check(cost < 1e-24 * sz * sz + 1e-26, "exact", "transformed points are not matched: " + vf::str(cost)); if (kind == 0 && gap > 1e-3) c.check(dist(T, G[j].T()) < 1e-11 * sz, "exact", "another transformation is found");
    // directions, with weights
    MatrixXd p = a, q = b; for (int x = 0; x < k; ++x) { p.col(x) = (Vector3d(b.col(x)) + Vector3d(0.1, 0.2, -0.3)).normalized(); q.col(x) = p.col(x); if (kind == 1) q.col(x)[0] *= -1; if (kind == 2) q.col(x) = (q.col(x) + Vector3d(0.2 * x, -0.1, 0.05 * x)).normalized(); if (kind == 3) q.col(x) = Vector3d(std::sin(x + i), 0.4, std::cos(x * 2.0)).normalized(); p.col(x) = (G[j].C() * p.col(x)).eval(); }
    for (int wk = 0; wk < 2; ++wk) { VectorXd w = VectorXd::Ones(k); if (wk) for (int x = 0; x < k; ++x) w[x] = x == 1 ? 0 : 0.5 + x; Matrix3d C = wk ? qMethod(p, q, w) : qMethod(p, q); c.check(proper(C, 1e-13), "proper", "qMethod gives no rotation"); double e = 0; for (int x = 0; x < k; ++x) e += w[x] * (p.col(x) - C * q.col(x)).squaredNorm(); double o = (double)best(p, q, w, false, &gap); c.check(e <= o + 1e-12 * k * 4, "optimal", "the error of qMethod is " + vf::str(e) + ", but " + vf::str(o) + " is possible"); if (kind == 0 && gap > 1e-3) c.check(dist(C, G[j].C()) < 1e-11, "exact", "qMethod finds another rotation"); c.transition(); }
    c.eval(k > 2); c.trace(); c.state(vf::str(i) + "," + vf::str(j) + "," + vf::str(kind));
  }
  for (int r = 2; r < 5; ++r) for (int k = 1; k < 4; ++k) for (int l = 1; l < 4; ++l) { if (r == 3 && k == l) continue; c.cur("%dx%d with 3x%d", r, k, l); bool t = false; try { threePointSvd(MatrixXd::Ones(r, k), MatrixXd::Ones(3, l)); } catch (const std::runtime_error&) { t = true; } c.check(t, "size", "threePointSvd accepts it"); t = false; try { qMethod(MatrixXd::Ones(r, k), MatrixXd::Ones(3, l)); } catch (const std::runtime_error&) { t = true; } c.check(t, "size", "qMethod accepts it"); }
  c.sample("cloud 27, transformation 4, kind 2");
}
// --- histories on one object: whatever was set, moved, assigned, loaded and read before, an object is the one its
// fields say: every operation on it and every value read from it is that of a fresh object with the same fields
namespace {
typedef std::vector<double> VD;
template <class D> void add(VD& v, const Eigen::MatrixBase<D>& m) { for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) v.push_back(m(i, j)); }
template <class F> void tryadd(VD& v, F f) { VD w; try { f(w); } catch (const std::exception&) { w.assign(1, 1e301); } v.insert(v.end(), w.begin(), w.end()); }
bool sameVD(const VD& a, const VD& b, double tol) { if (a.size() != b.size()) return false; double s = 1; for (double x : a) if (std::isfinite(x) && std::fabs(x) < 1e300) s = std::max(s, std::fabs(x)); for (size_t i = 0; i < a.size(); ++i) if (std::isfinite(a[i]) || std::isfinite(b[i])) { if (!(std::fabs(a[i] - b[i]) <= tol * s)) return false; } return true; }
template <class T> struct Kind { std::vector<std::pair<const char*, std::function<void(T&)>>> ops; std::function<void(VD&, const T&)> fields; std::vector<std::pair<const char*, std::function<void(VD&, const T&)>>> readers; std::function<T(const T&)> fresh; std::function<bool(const T&)> invalid; };
template <class T> T loadedFrom(T& into, const T& x) { std::stringstream s(std::ios::in | std::ios::out | std::ios::binary); { boost::archive::binary_oarchive o(s); o << x; } boost::archive::binary_iarchive i(s); i >> into; return into; }
template <class T> void twins(vf::Ctx& c, const char* what, const Kind<T>& k, const std::vector<T, Eigen::aligned_allocator<T>>& starts, int depth, uint64_t& n) {
  const int NO = k.ops.size(), NR = k.readers.size(); uint64_t total = 1; for (int d = 0; d < depth; ++d) total *= NO;
  for (size_t st = 0; st < starts.size(); ++st) for (uint64_t code = 0; code < total; ++code) {
    if (!c.mine(n++ / 32)) continue;
    for (int mode = 0; mode < 3; ++mode) {  // read nothing, everything, or one value after each step
      T x(starts[st]); std::string hist = std::string(what) + " " + vf::str(st); uint64_t y = code;
      auto readAll = [&](const char* when) { if (k.invalid && k.invalid(x)) return; T f(k.fresh(x)); for (auto& r : k.readers) { VD a, b; tryadd(a, [&](VD& v) { r.second(v, x); }); tryadd(b, [&](VD& v) { r.second(v, f); }); c.check(sameVD(a, b, 1e-11), r.first, std::string(r.first) + " " + when + " is not that of a fresh object with the same fields"); } };
      if (mode == 1) { c.cur(hist + "; read"); readAll("at the start"); }
      if (mode == 2) { VD v; tryadd(v, [&](VD& w) { k.readers[code % NR].second(w, x); }); hist += std::string("; read ") + k.readers[code % NR].first; }
      for (int d = 0; d < depth; ++d, y /= NO) {
        auto& o = k.ops[y % NO]; if (k.invalid && k.invalid(x)) break; hist += std::string("; ") + o.first + (mode == 1 ? "; read" : ""); c.cur(hist); c.transition();
        T t(k.fresh(x)); bool ex = false, et = false; srand(7 + d); sm::random::seed(7 + d); try { o.second(x); } catch (const std::exception&) { ex = true; } srand(7 + d); sm::random::seed(7 + d); try { o.second(t); } catch (const std::exception&) { et = true; }
        VD a, b; k.fields(a, x); k.fields(b, t); c.check(ex == et && sameVD(a, b, 1e-11), o.first, std::string(o.first) + " acts differently than on a fresh object");
        if (mode == 1) readAll("after the last step"); if (mode == 2) { VD v; tryadd(v, [&](VD& w) { k.readers[(code + d) % NR].second(w, x); }); }
      }
      if (mode != 1) { c.cur(hist + "; read"); readAll("at the end"); }
      c.trace();
    }
    c.eval(); c.state(std::string(what) + vf::str(st) + "," + vf::str(code));
  }
}
V6 v6(double a, double b, double d, double e, double f, double g) { V6 v; v << a, b, d, e, f, g; return v; }
template <class T> void transOps(Kind<T>& k) {
  k.ops = {{"oplus", [](T& x) { x.oplus(v6(0.5, -1, 2, 0.3, -0.1, 0.4)); }}, {"oplus of a translation", [](T& x) { x.oplus(v6(1, 2, -3, 0, 0, 0)); }}, {"set()", [](T& x) { Transformation y(axisAngle2quat(Vector3d(0.1, 1, -0.4)), Vector3d(1, -5, 2)); x.set(y.T()); }}, {"setIdentity()", [](T& x) { x.setIdentity(); }},
    {"tptr()", [](T& x) { x.tptr()[0] = 4; x.tptr()[2] -= 1; }}, {"qptr()", [](T& x) { Vector4d q = axisAngle2quat(Vector3d(-0.7, 0.2, 0.1)); for (int i = 0; i < 4; ++i) x.qptr()[i] = q[i]; }}, {"setRandom()", [](T& x) { x.setRandom(); }}, {"setRandom(2, 0.5)", [](T& x) { x.setRandom(2, 0.5); }},
    {"loading", [](T& x) { T y(TF(axisAngle2quat(Vector3d(0.2, 0.3, 1)), Vector3d(7, 8, 9))); loadedFrom(x, y); }}, {"assignment", [](T& x) { T y(TF(axisAngle2quat(Vector3d(1, 0.3, -1)), Vector3d(-7, 1, 2))); x = y; }}};
}
template <class T> void transReaders(Kind<T>& k) {
  k.readers = {{"T()", [](VD& v, const T& x) { add(v, x.T()); }}, {"C()", [](VD& v, const T& x) { add(v, x.C()); }}, {"t()", [](VD& v, const T& x) { add(v, x.t()); }}, {"q()", [](VD& v, const T& x) { add(v, x.q()); }}, {"T3x4()", [](VD& v, const T& x) { add(v, x.T3x4()); }}, {"S()", [](VD& v, const T& x) { add(v, x.S()); }},
    {"inverse()", [](VD& v, const T& x) { add(v, x.inverse().T()); }}, {"a point", [](VD& v, const T& x) { add(v, x * Vector3d(1, 2, -3)); add(v, x * Vector4d(1, 2, -3, 0.5)); add(v, x.rotate(Vector3d(1, 2, -3))); }}, {"a product", [](VD& v, const T& x) { TF b(axisAngle2quat(Vector3d(0.4, -0.3, 0.2)), Vector3d(1, 2, 3)); add(v, (x * b).T()); add(v, (b * x).T()); }}};
}
}
VF_PART(K03_sequences, 8) {
  Kind<TF> k; transOps(k); transReaders(k); k.fields = [](VD& v, const TF& x) { add(v, x.q()); add(v, x.t()); }; k.fresh = [](const TF& x) { return TF(x.q(), x.t()); };
  std::vector<TF, Eigen::aligned_allocator<TF>> s{TF(axisAngle2quat(Vector3d(0.5, -1, 0.3)), Vector3d(3, -1, 2))}; uint64_t n = 0; twins<TF>(c, "transformation", k, s, c.thorough ? 6 : 5, n);
  c.sample("transformation 0; oplus; read; qptr(); read; setIdentity(); read; loading; read");
}
VF_PART(K04_sequences, 8) {
  std::vector<M66> U = covs<6>(); uint64_t n = 0;
  { Kind<UT> k; transOps(k); transReaders(k); k.ops.erase(k.ops.begin() + 7); k.ops.erase(k.ops.begin() + 2);
    M66 a = U.back(), b = U[3] + U[7] * 0.5; k.ops.push_back({"setU", [a](UT& x) { x.setU(a); }}); k.ops.push_back({"setUOplus", [b](UT& x) { x.setUOplus(b); }}); k.ops.push_back({"a transformation assigned to the base", [](UT& x) { static_cast<TF&>(x) = TF(axisAngle2quat(Vector3d(0, 1, 1)), Vector3d(0, 0, 5)); }}); k.ops.push_back({"multiplied by itself", [](UT& x) { x = x * x; }});
    UT o(TF(axisAngle2quat(Vector3d(0.3, 0.3, 0.3)), Vector3d(2, 2, 1)), U[5]); UHP p(Vector4d(1, 2, -3, 0.5), Matrix4d(covs<4>().back()));
    k.readers.push_back({"U()", [](VD& v, const UT& x) { add(v, x.U()); }}); k.readers.push_back({"UOplus()", [](VD& v, const UT& x) { add(v, x.UOplus()); }}); k.readers.push_back({"inverse().U()", [](VD& v, const UT& x) { add(v, x.inverse().U()); }}); k.readers.push_back({"U() of a product", [o](VD& v, const UT& x) { add(v, (x * o).U()); add(v, (o * x).U()); add(v, (x * TF(o)).U()); }}); k.readers.push_back({"U4() of a point", [p](VD& v, const UT& x) { add(v, (x * p).U4()); add(v, (x * HP(p)).U4()); }}); k.readers.push_back({"toTransformation()", [](VD& v, const UT& x) { add(v, x.toTransformation().T()); }});
    k.fields = [](VD& v, const UT& x) { add(v, x.q()); add(v, x.t()); add(v, x.U()); }; k.fresh = [](const UT& x) { return UT(x.q(), x.t(), x.U()); };
    std::vector<UT, Eigen::aligned_allocator<UT>> s{UT(TF(axisAngle2quat(Vector3d(0.5, -1, 0.3)), Vector3d(3, -1, 2)), U[2] + U.back() * 0.1)}; twins<UT>(c, "uncertain transformation", k, s, c.thorough ? 5 : 4, n); }
  { typedef UncertainVector3 V; Kind<V> k; Matrix3d E = covs<3>().back(), F = covs<3>()[4]; V w(Vector3d(1, -1, 4), E);
    k.ops = {{"setMean", [](V& x) { x.setMean(Vector3d(3, 0, -1)); }}, {"setCovariance", [E](V& x) { x.setCovariance(E); }}, {"setCovariance of another", [F](V& x) { x.setCovariance(F); }}, {"normalize()", [](V& x) { if (x.v().norm() > 0) x.normalize(); }}, {"setRandom()", [](V& x) { x.setRandom(); }}, {"setZero()", [](V& x) { x.setZero(); }}, {"loading", [w](V& x) { loadedFrom(x, w); }}, {"a sum assigned", [w](V& x) { x = x + w; }}};
    k.readers = {{"mean()", [](VD& v, const V& x) { add(v, x.mean()); add(v, x.v()); }}, {"covariance()", [](VD& v, const V& x) { add(v, x.covariance()); add(v, x.E()); }}, {"a sum", [w](VD& v, const V& x) { V y = x + w, z = w - x; add(v, y.v()); add(v, y.E()); add(v, z.E()); }}, {"dot()", [w](VD& v, const V& x) { v.push_back(x.dot(w).v()); v.push_back(x.dot(w).E()); }}};
    k.fields = [](VD& v, const V& x) { add(v, x.v()); add(v, x.E()); }; k.fresh = [](const V& x) { return V(x.v(), x.E()); }; std::vector<V, Eigen::aligned_allocator<V>> s{V(Vector3d(1, 2, 3), F)}; twins<V>(c, "uncertain vector", k, s, c.thorough ? 6 : 5, n); }
  c.sample("uncertain transformation 0; read UOplus(); oplus; setU; read");
}
VF_PART(K05_sequences, 8) {
  uint64_t n = 0; std::vector<Matrix4d> W = covs<4>(); std::vector<Matrix3d> V = covs<3>(); Matrix4d W0 = W.back(), W1 = W[4]; Matrix3d V0 = V.back();
  Kind<UHP> k; k.ops = {{"= a 4x1 column", [](UHP& x) { static_cast<HP&>(x) = Vector4d(1, 2, -3, 0.5); }}, {"= a 3x1 column", [](UHP& x) { static_cast<HP&>(x) = Vector3d(4, -1, 2); }}, {"set()", [](UHP& x) { x.set(Vector4d(0.1, 0.2, 3, 2)); }}, {"oplus", [](UHP& x) { x.oplus(Vector3d(0.1, -0.3, 0.2)); }}, {"convertToVector()", [](UHP& x) { x.convertToVector(); }}, {"convertToPoint()", [](UHP& x) { x.convertToPoint(); }}, {"scale(2)", [](UHP& x) { x.scale(2); }}, {"setZero()", [](UHP& x) { x.setZero(); }}, {"pptr()", [](UHP& x) { x.pptr()[0] = 5; x.pptr()[3] = 0.75; }},
    {"setU", [W1](UHP& x) { x.setU(W1); }}, {"setUOplus", [V0](UHP& x) { x.setUOplus(V0); }}, {"normalize()", [](UHP& x) { x.normalize(); }}, {"assignment", [W0](UHP& x) { UHP y(Vector4d(3, 1, 2, 1.5), W0); x = y; }}, {"loading", [W1](UHP& x) { UHP y(Vector4d(-3, 1, 2, 2), W1); loadedFrom(x, y); }}, {"setRandom()", [](UHP& x) { x.setRandom(); }}};
  UHP o(Vector4d(1, 1, -2, 0.8), W[6]);
  k.readers = {{"toEuclidean()", [](VD& v, const UHP& x) { add(v, x.toEuclidean()); }}, {"toHomogeneous()", [](VD& v, const UHP& x) { add(v, x.toHomogeneous()); }}, {"toEuclideanAndJacobian()", [](VD& v, const UHP& x) { if (x.atInfinity()) return; HP::euclidean_jacobian_t J; add(v, x.toEuclideanAndJacobian(J)); add(v, J); }}, {"toHomogeneousAndJacobian()", [](VD& v, const UHP& x) { HP::homogeneous_jacobian_t J; add(v, x.toHomogeneousAndJacobian(J)); add(v, J); }}, {"U4()", [](VD& v, const UHP& x) { add(v, x.U4()); }}, {"U3()", [](VD& v, const UHP& x) { if (!x.atInfinity()) add(v, x.U3()); }}, {"U_av_form()", [](VD& v, const UHP& x) { add(v, x.U_av_form()); }}, {"isVector()", [](VD& v, const UHP& x) { v.push_back(x.isVector()); v.push_back(x.atInfinity()); }}, {"a sum", [o](VD& v, const UHP& x) { UHP y = x + o, z = o - x; add(v, y.toHomogeneous()); add(v, y.U4()); add(v, z.U4()); add(v, (x - HP(o)).U4()); }}};
  k.fields = [](VD& v, const UHP& x) { add(v, x.toHomogeneous()); add(v, x.U4()); }; k.fresh = [](const UHP& x) { return UHP(x.toHomogeneous(), x.U4()); }; k.invalid = [](const UHP& x) { return !(x.toHomogeneous().norm() > 0); };
  std::vector<UHP, Eigen::aligned_allocator<UHP>> s{UHP(Vector4d(2, -1, 3, 0.5), W0), UHP(Vector4d(2, -1, 3, 0), W1)}; twins<UHP>(c, "uncertain point", k, s, c.thorough ? 5 : 4, n);
  c.sample("uncertain point 1; setUOplus; convertToPoint(); normalize()");
}
// results that depend on earlier calls
VF_PART(K06_calls, 4) {
  static std::vector<Matrix4d> T; static std::vector<Vector4d> H = hpoints(); static std::vector<V6> X; if (H.size() > 48) H.resize(48);
  std::vector<Vector4d> Q = quats(4); Vector3d t[] = {{0, 0, 0}, {1, -2, 3}, {1, -2, 0}, {3, 1, -2}}; for (size_t i = 0; i < 12; ++i) for (auto& x : t) T.push_back(TF(Q[i * 2], x).T());
  for (int i = 0; i < 64; ++i) { V6 x; for (int k = 0; k < 6; ++k) x[k] = (i >> k & 1) * (k < 3 ? 1.5 : 0.4); X.push_back(x); }
  std::vector<vf::Pure> P; auto tn = [](size_t i) { return "transformation " + vf::str(i % T.size()); }; auto hn = [](size_t i) { return s4(H[i % H.size()]); }; auto xn = [](size_t i) { return s4(X[i]); };
  auto ofT = [&](const char* n, std::function<std::string(const Matrix4d&)> f) { P.push_back({n, T.size(), [f](size_t i) { return f(T[i]); }, tn}); };
  auto ofH = [&](const char* n, std::function<std::string(const Vector4d&)> f) { P.push_back({n, H.size(), [f](size_t i) { return f(H[i]); }, hn}); };
  ofT("rt2Transform", [](const Matrix4d& m) { return vf::bytes(rt2Transform(m.topLeftCorner<3, 3>(), m.topRightCorner<3, 1>())); }); ofT("transform2C", [](const Matrix4d& m) { return vf::bytes(transform2C(m)); }); ofT("transform2rho", [](const Matrix4d& m) { return vf::bytes(transform2rho(m)); }); ofT("transform2rhoHomogeneous", [](const Matrix4d& m) { return vf::bytes(transform2rhoHomogeneous(m)); });
  ofT("inverseTransform", [](const Matrix4d& m) { return vf::bytes(inverseTransform(m)); }); ofT("fromTEuler", [](const Matrix4d& m) { return vf::bytes(fromTEuler(m)); }); ofT("boxTimes", [](const Matrix4d& m) { return vf::bytes(boxTimes(m)); }); ofH("boxMinus", [](const Vector4d& p) { return vf::bytes(boxMinus(p)); });
  P.push_back({"boxPlus", 64, [](size_t i) { return vf::bytes(boxPlus(X[i])); }, xn}); P.push_back({"toTEuler", 64, [](size_t i) { return vf::bytes(toTEuler(X[i])); }, xn}); P.push_back({"toTEuler of numbers", 64, [](size_t i) { const V6& x = X[i]; return vf::bytes(toTEuler(x[0], x[1], x[2], x[3], x[4], x[5])); }, xn});
  static auto tp = [](size_t i, Matrix4d& m, Vector4d& p) { m = T[i / 8 * 5 % T.size()]; p = H[i % 8 * 5 % H.size()]; }; auto tpn = [tn, hn](size_t i) { return tn(i / 8 * 5) + " of " + hn(i % 8 * 5); };
  P.push_back({"transformationAndJacobian", 64, [](size_t i) { Matrix4d m; Vector4d p, o; Matrix<double, 4, 6> B; tp(i, m, p); transformationAndJacobian(m, p, o, B); return vf::bytes(o) + vf::bytes(B); }, tpn}); P.push_back({"inverseTransformationAndJacobian", 64, [](size_t i) { Matrix4d m; Vector4d p, o; Matrix<double, 4, 6> B; tp(i, m, p); inverseTransformationAndJacobian(m, p, o, B); return vf::bytes(o) + vf::bytes(B); }, tpn});
  ofH("toHomogeneous", [](const Vector4d& p) { Matrix<double, 4, 3> J; std::string s = vf::bytes(toHomogeneous(p.head<3>(), &J)); return s + vf::bytes(J) + vf::bytes(toHomogeneousJacobian(p.head<3>())); }); ofH("fromHomogeneous", [](const Vector4d& p) { Matrix<double, 3, 4> J; std::string s = vf::bytes(fromHomogeneous(p, &J)); return s + vf::bytes(J) + vf::bytes(fromHomogeneousJacobian(p)); });
  ofH("fromHomogeneous without Jacobian", [](const Vector4d& p) { return vf::bytes(fromHomogeneous(p)) + vf::bytes(toHomogeneous(p.tail<3>())); }); ofH("normalize", [](const Vector4d& p) { Matrix4d J; std::string s = vf::bytes(normalize<4>(p)); s += vf::bytes(normalizeAndJacobian<4>(p, J)); return s + vf::bytes(J); }); ofH("toHomogeneousPlus", [](const Vector4d& p) { return vf::bytes(toHomogeneousPlus(p)); }); ofH("toHomogeneousMinus", [](const Vector4d& p) { return vf::bytes(toHomogeneousMinus(p)); });
  static auto mat = [](size_t i, int r) { MatrixXd m(r, 1 + i % 3); for (int a = 0; a < m.rows(); ++a) for (int b = 0; b < m.cols(); ++b) m(a, b) = (a * 3 + b * 5 + i / 3 * (a + 1)) % 7 + 1; return m; }; auto mn = [](size_t i) { return "matrix " + vf::str(i); };
  P.push_back({"toHomogeneousColumns", 48, [](size_t i) { return vf::bytes(toHomogeneousColumns(mat(i, 2 + i % 2))); }, mn}); P.push_back({"fromHomogeneousColumns", 48, [](size_t i) { return vf::bytes(fromHomogeneousColumns(mat(i, 3 + i % 2))); }, mn});
  static std::vector<MatrixXd> C = clouds(); auto cloud = [](size_t i, MatrixXd& a, MatrixXd& b) { b = C[i / 2 * 9 % C.size()]; if (b.cols() < 3) b = C[40]; a = b; Matrix4d m = T[i % 2 ? 29 : 6]; for (int k = 0; k < a.cols(); ++k) a.col(k) = m.topLeftCorner<3, 3>() * b.col(k) + m.topRightCorner<3, 1>(); a.col(0)[1] += 0.1; };
  static auto unitc = [](MatrixXd& a, MatrixXd& b) { for (int k = 0; k < a.cols(); ++k) { a.col(k) += Vector3d(0.01, 0.02, 0.03); b.col(k) += Vector3d(0.02, 0.01, -0.03); a.col(k).normalize(); b.col(k).normalize(); } };
  auto cn = [](size_t i) { return "cloud " + vf::str(i); };
  P.push_back({"threePointSvd", 48, [cloud](size_t i) { MatrixXd a, b; cloud(i, a, b); return vf::bytes(threePointSvd(a, b)); }, cn}); P.push_back({"qMethod", 48, [cloud](size_t i) { MatrixXd a, b; cloud(i, a, b); unitc(a, b); return vf::bytes(qMethod(a, b)); }, cn}); P.push_back({"qMethod with weights", 48, [cloud](size_t i) { MatrixXd a, b; cloud(i / 2, a, b); unitc(a, b); VectorXd w = VectorXd::Ones(a.cols()); w[i % 2] = 3; return vf::bytes(qMethod(a, b, w)); }, cn});
  vf::pure(c, P); c.sample("boxTimes of transformation 5 after transformation 6");
}
// large clouds, and matrices of many columns
VF_PART(K06_large, 8) {
  int i = 0; std::vector<Vector4d> Q = quats(13);
  for (int n : {6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025}) for (int kind = 0; kind < 6; ++kind) for (int qi = 0; qi < 3; ++qi) {
    if (!c.mine(i++)) continue;
    c.cur("%d points, kind %d, rotation %d", n, kind, qi); TF G(Q[(i * 7 + qi) % Q.size()], Vector3d(1, -2 + qi, 30)); Matrix4d M = G.T(); MatrixXd b(3, n), a(3, n), h(4, n); VectorXd w(n);
    for (int k = 0; k < n; ++k) { b.col(k) = Vector3d(std::sin(k * 1.7 + qi), std::cos(k * 0.9) * 2, kind == 4 ? 0 : std::sin(k * k * 0.37) * 3); if (kind == 5) b.col(k) += Vector3d(1000, -500, 2000); a.col(k) = M.topLeftCorner<3, 3>() * b.col(k) + M.topRightCorner<3, 1>(); w[k] = k % 5 == 1 ? 0 : 0.5 + k % 3; }
    if (kind == 1) a.row(1) *= -1; if (kind == 2) for (int k = 0; k < n; ++k) a.col(k) += 0.2 * Vector3d(std::cos(k * 3.3), std::sin(k * 2.1), std::cos(k * k * 1.3)); if (kind == 3) a.col(n - 1) += Vector3d(3, 3, -3);
    for (int k = 0; k < n; ++k) h.col(k) << a.col(k), 1 + k % 2;
    L opt = best(a, b, VectorXd::Ones(n), true); Matrix4d T = threePointSvd(a, b); double cost = 0, sz = 1; for (int k = 0; k < n; ++k) { cost += (a.col(k) - T.topLeftCorner<3, 3>() * b.col(k) - T.topRightCorner<3, 1>()).squaredNorm(); sz = std::max(sz, a.col(k).squaredNorm() + b.col(k).squaredNorm()); }
    c.check(proper(T.topLeftCorner<3, 3>(), 1e-12) && T.row(3) == Vector4d(0, 0, 0, 1).transpose(), "proper", "the alignment of many points is no rigid transformation"); c.check(cost <= opt + 1e-12 * sz * n, "optimal", "many points: the error is " + vf::str(cost) + ", but " + vf::str((double)opt) + " is possible");
    MatrixXd p = b, q = b; for (int k = 0; k < n; ++k) { q.col(k) = b.col(k).normalized(); p.col(k) = M.topLeftCorner<3, 3>() * q.col(k); if (kind == 1) p.col(k)[1] *= -1; if (kind == 2) p.col(k) = (p.col(k) + 0.2 * Vector3d(std::cos(k * 3.3), std::sin(k * 2.1), 0)).normalized(); }
    if (kind == 3) p.col(n - 1) = Vector3d(0, 0, 1); for (int wk = 0; wk < 2; ++wk) { VectorXd ww = wk ? w : VectorXd::Ones(n).eval(); Matrix3d C = wk ? qMethod(p, q, w) : qMethod(p, q); double e = 0; for (int k = 0; k < n; ++k) e += ww[k] * (p.col(k) - C * q.col(k)).squaredNorm(); L o = best(p, q, ww, false); c.check(proper(C, 1e-12), "proper", "qMethod gives no rotation for many directions"); c.check(e <= o + 1e-12 * n, "optimal", std::string("qMethod") + (wk ? " with weights" : "") + " of many directions: the error is " + vf::str(e) + ", but " + vf::str((double)o) + " is possible"); }
    MatrixXd th = toHomogeneousColumns(a), fh = fromHomogeneousColumns(h); c.check(th.rows() == 4 && th.cols() == n && th.topRows(3) == a && th.row(3) == VectorXd::Ones(n).transpose(), "columns", "toHomogeneousColumns of many columns"); bool ok = fh.rows() == 3 && fh.cols() == n; for (int k = 0; ok && k < n; ++k) ok = dist(fh.col(k), a.col(k) / (1 + k % 2)) <= 1e-15 * a.col(k).norm(); c.check(ok, "columns", "fromHomogeneousColumns of many columns");
    c.eval(); c.transition(); c.trace(); c.state(vf::str(n) + "," + vf::str(kind) + "," + vf::str(qi));
  }
  c.sample("257 points, kind 2, rotation 1");
}
