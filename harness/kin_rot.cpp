// K01 quaternion algebra, K02 rotation parametrisations of sm_kinematics.
#include "kin_ref.hpp"
#include "fresh.hpp"
#include <boost/make_shared.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/EulerAnglesZXY.h>
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerRodriguez.hpp>
#include <sm/kinematics/RotationVector.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/rotations.hpp>
using namespace sm::kinematics;
// the group: every triple of the 61 quaternions
VF_PART(K01_group, 8) {
  std::vector<Vector4d> Q = quats(13); const double E = 1e-14; uint64_t n = 0;
  Vector3d vs[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, -2, 3}, {1e8, 1, -1e-8}, {0, 0, 0}};
  for (size_t i = 0; i < Q.size(); ++i) {
    const Vector4d& q = Q[i];
    if (c.mine(i)) {
      c.cur("q = %s", s4(q).c_str()); Matrix3d C = quat2r(q);
      c.check(dist(C, rrot(q.cast<L>())) < E && proper(C, E), "rotation", "quat2r is not the rotation of the quaternion");
      Vector4d b = r2quat(C); c.check(upto(b, q) < E && b[3] >= 0, "from-matrix", "r2quat gives " + s4(b));
      Vector4d iv = quatInv(q), w = q; invertQuat(w); c.check(iv == w && dist(qplus(q, iv), quatIdentity()) < E && dist(qplus(iv, q), quatIdentity()) < E && dist(quat2r(iv), C.transpose()) < E, "inverse", "");
      c.check(dist(qplus(q, quatIdentity()), q) == 0 && dist(qplus(quatIdentity(), q), q) == 0 && quat2r(quatIdentity()) == Matrix3d::Identity(), "identity", "");
      c.check(qeps(q) == q.head<3>() && qeta(q) == q[3], "parts", "");
      for (auto& v : vs) c.check(dist(quatRotate(q, v), C * v) <= E * (1 + v.norm()), "rotate", "quatRotate differs from the matrix");
      // minimal updates
      Matrix<double, 4, 3> J = quatJacobian(q); Vector4d z = Vector4d::Zero();
      for (int k = 0; k < 3; ++k) { L3 d = L3::Zero(); d[k] = 1e-6L; L4 f = (rmul(rexp(d), q.cast<L>()) - rmul(rexp(-d), q.cast<L>())) / 2e-6L; c.check(dist(J.col(k), f) < 1e-11, "update-jacobian", "quatJacobian differs"); }
      c.check(dist(quatS(q) * quatInvS(q), Matrix3d::Identity()) < E && dist(quatInvS(q), J) < E, "S", "quatS is no left inverse of quatInvS");
      c.check(J.transpose() * q == J.transpose() * q && (J.transpose() * q).norm() < E, "tangent", "the update leaves the sphere");
    }
    for (size_t j = 0; j < Q.size(); ++j) {
      if (!c.mine(n++)) continue;
      const Vector4d& p = Q[j]; c.cur("q = %s, p = %s", s4(q).c_str(), s4(p).c_str()); Vector4d m = qplus(q, p); L4 rm = rmul(q.cast<L>(), p.cast<L>());
      c.check(dist(m, rm) < E && dist(quatPlus(q) * p, rm) < E && dist(quatOPlus(p) * q, rm) < E && dist(qoplus(p, q), rm) < E, "product", "");
      c.check(unit(m) && dist(quat2r(m), quat2r(q) * quat2r(p)) < E, "homomorphism", "the product does not compose the rotations");
      c.check(dist(quatInv(m), qplus(quatInv(p), quatInv(q))) < E, "inverse", "of a product");
      for (size_t k = 0; k < Q.size(); ++k) { c.check(dist(qplus(m, Q[k]), qplus(q, qplus(p, Q[k]))) < E, "associative", s4(Q[k])); c.transition(); }
      c.eval(i != j); c.trace(); c.state(vf::str(i) + "," + vf::str(j));
    }
  }
  c.sample("q = (0.5,0.5,-0.5,0.5), p = (0,0.707,0.707,0)");
}
VF_PART(K01_exp_log, 8) {
  std::vector<Ang> A = angles(c.thorough); const double e = std::numeric_limits<double>::epsilon();
  for (size_t i = 0; i < A.size(); ++i) {
    if (!c.mine(i)) continue;
    Vector3d a = A[i].v; double t = a.norm(); c.cur("%s", A[i].n.c_str());
    Vector4d q = axisAngle2quat(a); L4 r = rexp(a.cast<L>());
    bool ok = unit(q, 4 * e); for (int k = 0; k < 4; ++k) ok &= std::fabs((double)((L)q[k] - r[k])) <= 4 * e * (k < 3 ? std::fabs((double)r[k]) + (t > 1 ? 1.5 * std::fabs(a[k]) : 0) : 1);
    c.check(ok, "exp", "gives " + s4(q) + " instead of " + s4(r.cast<double>())); c.check(qexp(a) == q, "alias", "");
    // just below 2 pi the angle is ill-conditioned: the error of q is magnified by 1/|eps|, but not that of the logarithm of q as it is
    Vector3d b = quat2AxisAngle(q); double cond = t > 3.2 ? 1 / std::max(1e-12, q.head<3>().norm()) : 1;
    c.check(dist(b, rlog(q.cast<L>())) <= 16 * e * t + 1e-307, "log", "gives " + s4(b) + ", which differs by " + vf::str(dist(b, rlog(q.cast<L>())) / t) + " times its length"); c.check(dist(b, a) <= 32 * e * t * cond + 1e-307, "exp-log", "the logarithm of the exponential is " + s4(b)); c.check(qlog(q) == b, "alias", "");
    Vector4f qf = q.cast<float>(); qf.normalize(); Vector3f bf = quat2AxisAngle<float>(qf); if (t < 6 && qf.norm() == qf.norm()) c.check(dist(bf, rlog(qf.cast<L>())) <= 16 * std::numeric_limits<float>::epsilon() * t * cond + 1e-37, "log", "in float it differs by " + vf::str(dist(bf, rlog(qf.cast<L>()))));
    // derivative of exp, from extended precision differences
    Matrix<double, 4, 3> J = quatExpJacobian(a); Matrix3d D = expDiffMat(a), Li = logDiffMat(a); L h = 1e-5L;
    for (int k = 0; k < 3; ++k) { L3 d = L3::Zero(); d[k] = h; L4 f = (rexp(a.cast<L>() + d) - rexp(a.cast<L>() - d)) / (2 * h); c.check(dist(J.col(k), f) < 1e-10, "exp-jacobian", "column " + vf::str(k) + " is off by " + vf::str(dist(J.col(k), f)));
      // exp(a + d) = exp(D d) exp(a)
      L3 w = (rlog(rmul(rexp(a.cast<L>() + d), [&] { L4 x = rexp(a.cast<L>()); x.head<3>() *= -1; return x; }())) - rlog(rmul(rexp(a.cast<L>() - d), [&] { L4 x = rexp(a.cast<L>()); x.head<3>() *= -1; return x; }()))) / (2 * h); c.check(dist(D.col(k), w) < 1e-10, "exp-diff", "expDiffMat is off by " + vf::str(dist(D.col(k), w))); }
    c.check(dist(D * Li, Matrix3d::Identity()) < 1e-13 * cond * cond, "log-diff", "logDiffMat is no inverse of expDiffMat: " + vf::str(dist(D * Li, Matrix3d::Identity())));
    Matrix3f Df = expDiffMat<float>(a.cast<float>()), Lf = logDiffMat<float>(a.cast<float>()); if (t < 6) c.check(dist(Df, D) < 2e-6 && dist(Lf, Li) < 2e-5 * (1 + Li.norm()), "float", "the float version differs by " + vf::str(dist(Df, D)) + ", " + vf::str(dist(Lf, Li)));
    Matrix<float, 4, 3> Jf = quatExpJacobian<float>(a.cast<float>()); if (t < 6) c.check(dist(Jf, J) < 2e-6, "float", "the float exp Jacobian differs");
    c.check(dist(quatLogJacobian2(q) * J, Matrix3d::Identity()) < 1e-13 * cond * cond, "log-jacobian", "it is no inverse of the exp Jacobian: " + vf::str(dist(quatLogJacobian2(q) * J, Matrix3d::Identity())));
    if (t < 6) c.check(dist(quatLogJacobian2<float>(qf), quatLogJacobian2(q)) < 1e-4 * (1 + Li.norm()), "float", "the float log Jacobian differs by " + vf::str(dist(quatLogJacobian2<float>(qf), quatLogJacobian2(q))));
    if (t > 1e-2 && t < 6.27) { Matrix<double, 3, 4> G = quatLogJacobian(q); for (int k = 0; k < 4; ++k) { L4 d = L4::Zero(); d[k] = h; auto f = [&](const L4& x) -> L3 { return (x.head<3>() * (2 * acosl(x[3]) / x.head<3>().norm())).eval(); }; L3 g = (f(q.cast<L>() + d) - f(q.cast<L>() - d)) / (2 * h); double sc = 1 + g.norm(); c.check(dist(G.col(k), g) < 3e-6 * sc / std::pow(q.head<3>().norm(), 3), "free-log-jacobian", "column " + vf::str(k) + ": " + vf::str(dist(G.col(k), g))); } }
    c.check(quatV<double>() == Matrix<double, 4, 3>::Identity() * 0.5 && quatV<float>() == Matrix<float, 4, 3>::Identity() * 0.5f, "V", "");
    Vector4d p = quats(13)[i % 61]; Vector4d u = updateQuat(p, a); c.check(dist(u, rmul(rexp(a.cast<L>()), p.cast<L>())) < 1e-14, "update", "updateQuat is not the product with the exponential");
    c.eval(t > 0); c.transition(10); c.trace(); c.state(A[i].n);
  }
  c.sample("0.00012207 about axis 3");
}
VF_PART(K01_interpolation, 8) {
  std::vector<Vector4d> Q = quats(13); uint64_t n = 0; double ts[] = {-1, 0, 1e-9, .125, .25, 1 / 3., .5, .7, .875, 1 - 1e-9, 1, 2};
  for (size_t i = 0; i < Q.size(); ++i) for (size_t j = 0; j < Q.size(); ++j) {
    if (!c.mine(n++)) continue;
    const Vector4d &a = Q[i], &b = Q[j]; double full = 2 * std::acos(std::min(1.0, std::fabs(a.dot(b)))); bool amb = std::fabs(a.dot(b)) < 1e-9;
    for (double t : ts) {
      c.cur("from %s to %s at %g", s4(a).c_str(), s4(b).c_str(), t); Vector4d s = qslerp(a, b, t);
      if (t <= 0) { c.check(s == a, "ends", "it does not start at the first"); continue; } if (t >= 1) { c.check(s == b, "ends", "it does not end at the second"); continue; }
      c.check(unit(s), "unit", "it leaves the unit quaternions: " + s4(s));
      double d0 = 2 * std::acos(std::min(1.0, std::fabs(s.dot(a)))), d1 = 2 * std::acos(std::min(1.0, std::fabs(s.dot(b))));
      c.check(std::fabs(d0 - t * full) < 1e-7 && std::fabs(d1 - (1 - t) * full) < 1e-7, "distance", "at angle " + vf::str(d0) + " and " + vf::str(d1) + " of " + vf::str(full));
      L4 bb = b.cast<L>(); if (a.dot(b) < 0) bb = -bb; L4 ia = a.cast<L>(); ia.head<3>() *= -1; L4 ref = rmul(a.cast<L>(), rexp((t * rlog(rmul(ia, bb))).eval()));
      if (!amb) { c.check(dist(s, ref) < 1e-14, "path", "it is not on the shorter arc"); c.check(upto(qslerp(b, a, 1 - t), s) < 1e-8, "reverse", "the other way round gives another rotation"); }
      c.transition(); c.eval(full > 0);
    }
    c.trace(); c.state(vf::str(i) + "," + vf::str(j));
  }
  for (int d = 0; d < 5; ++d) for (double t : ts) { c.cur("lerp of %d at %g", d, t); VectorXd x(d), y(d); for (int k = 0; k < d; ++k) x[k] = k * 1.5 - 2, y[k] = 7 - k * k; VectorXd r = lerp(x, y, t); double u = std::min(1.0, std::max(0.0, t)); c.check(r.size() == d && (d == 0 || (r - (x + u * (y - x))).norm() < 1e-14), "lerp", ""); bool thr = false; try { lerp(x, VectorXd(d + 1), t); } catch (const std::runtime_error&) { thr = true; } c.check(thr, "lerp-size", "vectors of different sizes are accepted"); }
  for (int k = 0; k < 1000; ++k) { c.cur("quatRandom"); c.check(unit(quatRandom()), "random", "a random quaternion is not a unit one"); }
  c.sample("from (0,0,0,1) to (0.5,0.5,-0.5,-0.5) at 0.25");
}
// ------------------------------------------------------------------- K02
namespace {
struct Kind { const char* n; boost::shared_ptr<RotationalKinematics> k; int id; };
std::vector<Kind> kinds() { return {{"RotationVector", boost::make_shared<RotationVector>(), 0}, {"EulerRodriguez", boost::make_shared<EulerRodriguez>(), 1}, {"EulerAnglesZYX", boost::make_shared<EulerAnglesZYX>(), 2}, {"EulerAnglesYawPitchRoll", boost::make_shared<EulerAnglesYawPitchRoll>(), 3}, {"EulerAnglesZXY", boost::make_shared<EulerAnglesZXY>(), 4}}; }
// definition of each parametrisation
L33 refC(int id, const L3& p) {
  switch (id) {
    case 0: return rrot(rexp(p));
    case 1: { L n = p.norm(); return n == 0 ? L33::Identity().eval() : rrot(rexp((p * (2 * atanl(n) / n)).eval())); }
    case 2: return raxis(2, -p[0]) * raxis(1, -p[1]) * raxis(0, -p[2]);
    case 3: return raxis(2, p[0]) * raxis(1, p[1]) * raxis(0, p[2]);
    default: return raxis(2, p[0]) * raxis(0, p[1]) * raxis(1, p[2]);
  }
}
L3 vee(const L33& w) { return L3(w(1, 2), -w(0, 2), w(0, 1)); }
L33 refS(int id, const L3& p) { L33 S; L h = 1e-5L; L33 Ct = refC(id, p).transpose(); for (int k = 0; k < 3; ++k) { L3 d = L3::Zero(); d[k] = h; S.col(k) = vee((refC(id, p + d) - refC(id, p - d)) * Ct) / (2 * h); } return S; }
L33 refS4(int id, const L3& p) { L33 S; L h = 1e-3L; L33 Ct = refC(id, p).transpose(); for (int k = 0; k < 3; ++k) { L3 d = L3::Zero(); d[k] = h; S.col(k) = vee((8 * (refC(id, p + d) - refC(id, p - d)) - (refC(id, p + 2 * d) - refC(id, p - 2 * d))) * Ct) / (12 * h); } return S; }
std::vector<Vector3d> params(int id, bool th) {
  std::vector<Vector3d> r; double q = (double)PI / 2;
  if (id == 0) { for (auto& a : angles(th)) r.push_back(a.v); }
  else if (id == 1) { for (auto& a : angles(th)) { double t = a.v.norm(); if (t < 3) r.push_back(t > 0 ? (a.v * (std::tan(t / 2) / t)).eval() : a.v); } r.push_back(Vector3d(10, -20, 5)); }
  else { std::vector<double> g = {-3, -q, -1, -0.2, -1e-9, 0, 1e-5, 0.7, q, 2.9}, y = {-q, -q + 1e-9, -1.2, -1e-6, 0, 0.4, 1.5, q - 1e-7, q}; if (th) for (int k = 0; k < 12; ++k) { g.push_back(k * 0.51 - 3); y.push_back(k * 0.27 - 1.5); } for (double a : g) for (double b : y) for (double e : g) r.push_back(Vector3d(a, b, e)); for (double b : {1.8, 2.9, -2.2}) r.push_back(Vector3d(0.3, b, -0.4)); }
  return r;
}
}
VF_PART(K02_parameters, 16) {
  uint64_t n = 0;
  for (auto& K : kinds()) {
    std::vector<Vector3d> P = params(K.id, c.thorough);
    for (auto& p : P) {
      if (!c.mine(n++)) continue;
      c.cur("%s %s", K.n, s4(p).c_str()); Matrix3d S = Matrix3d::Constant(77), S2 = K.k->parametersToSMatrix(p), C = K.k->parametersToRotationMatrix(p), C2 = K.k->parametersToRotationMatrix(p, &S); L3 pl = p.cast<L>(); double t = p.norm();
      c.check(proper(C, 1e-14), "proper", "the matrix is no rotation"); c.check(dist(C, refC(K.id, pl)) < 2e-14, "matrix", "it is not the rotation the parameters define: " + vf::str(dist(C, refC(K.id, pl)))); c.check(C == C2 && dist(S, S2) < 1e-15, "same", "with and without S it gives another result");
      L33 rs = refS(K.id, pl); double sn = 1; c.check(dist(S, rs) < 1e-9 * sn, "S", "S differs from the derivative of the rotation by " + vf::str(dist(S, rs)));
      Vector3d b = K.k->rotationMatrixToParameters(C); bool fin = b.norm() == b.norm(); c.check(fin && dist(K.k->parametersToRotationMatrix(b), C) < 5e-8, "inverse", "the parameters found, " + s4(b) + ", are those of another rotation");
      bool uniq = K.id == 0 ? t < 3.13 : K.id == 1 ? t < 30 : std::fabs(p[1]) < 1.5; if (uniq && fin) c.check(dist(b, p) < 1e-7 * (1 + (K.id == 1 ? t * t : 0)), "inverse", "the parameters come back as " + s4(b));
      if (K.id == 0 && t < 6.2) c.check(dist(((RotationVector*)K.k.get())->parametersToInverseSMatrix(p) * S, Matrix3d::Identity()) < 1e-12 * (t > 4 ? 100 : 1), "inverse-S", "the inverse S matrix is none: " + vf::str(dist(((RotationVector*)K.k.get())->parametersToInverseSMatrix(p) * S, Matrix3d::Identity())));
      for (Vector3d pd : {Vector3d(1, 0, 0), Vector3d(0, 1, 0), Vector3d(0, 0, 1), Vector3d(0.3, -2, 1.5)}) {
        M36 J = M36::Constant(77); Vector3d w = K.k->angularVelocityAndJacobian(p, pd, &J); c.check(dist(w, S * pd) < 1e-14 * (1 + pd.norm()), "angular-velocity", "it is not S times the rate"); c.check(dist(K.k->angularVelocityAndJacobian(p, pd, NULL), w) == 0, "same", "without Jacobian it differs"); c.check(dist(J.rightCols<3>(), S) < 1e-14, "rate-jacobian", "");
        L h = 1e-3L; Matrix3d R; for (int k = 0; k < 3; ++k) { L3 d = L3::Zero(); d[k] = h; R.col(k) = ((refS4(K.id, pl + d) - refS4(K.id, pl - d)) * pd.cast<L>() / (2 * h)).cast<double>(); }
        c.check(dist(J.leftCols<3>(), R) < 2e-5 * (1 + pd.norm()), "jacobian", "the Jacobian for rate " + s4(pd) + " is off by " + vf::str(dist(J.leftCols<3>(), R)));
        c.transition();
      }
      c.eval(t > 0); c.trace(); c.state(K.n + s4(p));
    }
  }
  c.sample("EulerAnglesZYX -1,1.5707963267948966,0.7");
}
// every rotation of the cube, alone, composed and disturbed by rounding, into parameters and back
VF_PART(K02_matrices, 8) {
  std::vector<Vector4d> Q = quats(13); uint64_t n = 0; std::vector<Matrix3d> Z;
  for (int m = 0; m < 6; ++m) for (int s = 0; s < 8; ++s) { int pm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; Matrix3d M = Matrix3d::Zero(); for (int i = 0; i < 3; ++i) M(i, pm[m][i]) = s >> i & 1 ? -1 : 1; if (M.determinant() > 0) Z.push_back(M); }
  auto one = [&](const Matrix3d& C, const std::string& nm) {
    double ang = std::acos(std::max(-1.0, std::min(1.0, (C.trace() - 1) / 2)));
    for (auto& K : kinds()) { if (K.id == 1 && ang > 3.1) continue; c.cur(std::string(K.n) + " of " + nm); Vector3d b = K.k->rotationMatrixToParameters(C); bool fin = b.norm() == b.norm(); c.check(fin, "finite", "the parameters are not a number"); if (fin) c.check(dist(K.k->parametersToRotationMatrix(b), C) < 5e-8, "inverse", "the parameters " + s4(b) + " are those of another rotation"); c.transition(); }
    c.cur(nm); Vector3d a = R2AxisAngle(C); c.check(dist(axisAngle2R(a), C) < 1e-12, "axis-angle", "R2AxisAngle gives " + s4(a)); c.check(a.norm() < 3.1416, "axis-angle", "the angle is not the smallest");
    Vector3d e = R2rph(C); c.check(dist(rph2R(e), C) < 5e-8, "rph2R", "R2rph gives " + s4(e)); e = C2rph(C); c.check(dist(rph2C(e), C) < 5e-8, "rph2C", "C2rph gives " + s4(e));
    Vector4d q = r2quat(C); c.check(unit(q, 1e-14) && dist(quat2r(q), C) < 1e-14, "quaternion", "r2quat gives " + s4(q)); c.eval(); c.trace(); c.state(nm);
  };
  for (size_t i = 0; i < Z.size(); ++i) if (c.mine(n++)) one(Z[i], "rotation " + vf::str(i) + " of the cube");
  for (size_t i = 0; i < Q.size(); ++i) for (size_t j = 0; j < Q.size(); ++j) if (c.mine(n++)) { one(quat2r(Q[i]) * quat2r(Q[j]), "product of " + vf::str(i) + " and " + vf::str(j)); if ((i + j) % 3 == 0) one(quat2r(Q[i]) * quat2r(Q[i]).transpose() * quat2r(Q[j]), "rounded " + vf::str(j) + " by " + vf::str(i)); }
  std::vector<Ang> A = angles(c.thorough); for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < Z.size(); ++j) { if (!c.mine(n++)) continue; if (!c.thorough && (i + j) % 3) continue; one(rrot(rexp(A[i].v.cast<L>())).cast<double>() * Z[j], A[i].n + " after rotation " + vf::str(j)); }
  c.sample("rounded 5 by 54");
}
VF_PART(K02_functions, 2) {
  double g[] = {-20, -6.3, -(double)PI, -3, -(double)PI / 2, -1, -1e-5, -1e-11, 0, 1e-11, 1e-9, 0.3, (double)PI / 4, (double)PI / 2, 2, 3.1, (double)PI, 4, 6.5, 100}; uint64_t n = 0;
  for (double a : g) {
    if (c.mine(n++)) { c.cur("%g", a); c.check(dist(Rx(a), raxis(0, a)) < 1e-15 && dist(Ry(a), raxis(1, a)) < 1e-15 && dist(Rz(a), raxis(2, a)) < 1e-15, "axis", ""); c.check(dist(Cx(a), raxis(0, -a)) < 1e-15 && dist(Cy(a), raxis(1, -a)) < 1e-15 && dist(Cz(a), raxis(2, -a)) < 1e-15, "axis", "");
      for (auto& A : angles(false)) if (std::fabs(A.v.norm() - 1) < 1e-9) { Vector3d u = A.v.normalized(); c.check(dist(axisAngle2R(a, u[0], u[1], u[2]), rrot(rexp((u.cast<L>() * (L)a).eval()))) < 5e-12, "angle-axis", "axisAngle2R by " + vf::str(a) + " about " + s4(u)); Vector3d p = u * a; c.check(dist(axisAngle2R(p), axisAngle2R(p[0], p[1], p[2])) == 0 && dist(axisAngle2R(p), rrot(rexp(p.cast<L>()))) < 5e-12, "angle-axis", "axisAngle2R of " + s4(p)); }
      double d = rad2deg(a); c.check(std::fabs(deg2rad(d) - a) <= 4e-16 * std::fabs(a) && std::fabs((double)((L)d - (L)a * 180 / PI)) <= 4e-16 * std::fabs(d), "degrees", "rad2deg gives " + vf::str(d) + ", deg2rad of it is off by " + vf::str(deg2rad(d) - a)); }
    for (double b : g) for (double e : g) { if (!c.mine(n++)) continue; c.cur("roll %g pitch %g heading %g", a, b, e); L33 R = raxis(2, e) * raxis(1, b) * raxis(0, a); Vector3d v(a, b, e); c.check(dist(rph2R(a, b, e), R) < 2e-15 && rph2R(v) == rph2R(a, b, e), "rph2R", ""); R = raxis(2, -e) * raxis(1, -b) * raxis(0, -a); c.check(dist(rph2C(a, b, e), R) < 2e-15 && rph2C(v) == rph2C(a, b, e), "rph2C", "");
      if (std::fabs(a) < 3.14 && std::fabs(b) < 1.57 && std::fabs(e) < 3.14) c.check(dist(R2rph(rph2R(v)), v) < 1e-10 && dist(C2rph(rph2C(v)), v) < 1e-10, "inverse", "angles come back as " + s4(R2rph(rph2R(v)))); Matrix3d X = crossMx(a, b, e); Vector3d w(2, -3, 5); c.check(dist(X * w, v.cross(w)) <= 1e-13 && X == -X.transpose() && crossMx(v) == X && crossMx<float>((float)a, (float)b, (float)e) == X.cast<float>(), "cross", ""); c.eval(); c.trace(); c.transition(); c.state(vf::str(a) + "," + vf::str(b) + "," + vf::str(e)); }
  }
  for (int k = -400; k <= 400; ++k) for (double o : {0.0, 1e-9, -1e-9, 0.5, -0.5, 3.0, -3.0, 3.14159, -3.14159}) { if (!c.mine(n++)) continue; double x = k * 2 * (double)PI + o; c.cur("angleMod(%.17g)", x); double m = angleMod(x); c.check(std::fabs(m - o) <= 3e-16 * (10 + std::fabs(x)), "angle-mod", "gives " + vf::str(m)); c.check(std::fabs(m) <= (double)PI + 1e-12, "angle-mod", "it is out of range"); c.eval(k != 0); c.transition(); }
  c.sample("roll 0.3 pitch 1.5708 heading -1");
}
// results that depend on earlier calls: every ordered pair of inputs that share components, lengths, axes or angles
namespace {
std::vector<Vector3d> grid3() { std::vector<Vector3d> r; double g[] = {0, 0.3, -0.3, 0.9}; for (double a : g) for (double b : g) for (double e : g) r.push_back(Vector3d(a, b, e)); for (int k = 0; k < 10; ++k) r.push_back(r[7 + k * 6] * (1 + (k % 5 == 0 ? 1e-4 : k % 5 == 1 ? 1e-6 : k % 5 == 2 ? 1e-8 : k % 5 == 3 ? 1e-11 : 4e-16))); return r; }
std::vector<Vector4d> grid4() { std::vector<Vector4d> r = quats(6); for (auto& v : grid3()) if (v.norm() > 0) r.push_back(qexp(v)); return r; }
typedef std::vector<vf::Pure> PS;
template <class R> void of3(PS& P, const char* n, R f) { static std::vector<Vector3d> G = grid3(); P.push_back({n, G.size(), [f](size_t i) { return vf::bytes(f(G[i])); }, [](size_t i) { return s4(G[i]); }}); }
template <class R> void of4(PS& P, const char* n, R f) { static std::vector<Vector4d> G = grid4(); P.push_back({n, G.size(), [f](size_t i) { return vf::bytes(f(G[i])); }, [](size_t i) { return s4(G[i]); }}); }
template <class R> void of44(PS& P, const char* n, R f) { static std::vector<Vector4d> G; if (G.empty()) { auto q = grid4(); for (int i = 0; i < 8; ++i) G.push_back(q[i * 7 % q.size()]); } P.push_back({n, 64, [f](size_t i) { return vf::bytes(f(G[i / 8], G[i % 8])); }, [](size_t i) { return s4(G[i / 8]) + " and " + s4(G[i % 8]); }}); }
template <class R> void ofC(PS& P, const char* n, R f) { static std::vector<Matrix3d> G; if (G.empty()) for (auto& v : grid3()) G.push_back(rrot(rexp(v.cast<L>())).cast<double>()); P.push_back({n, G.size(), [f](size_t i) { return vf::bytes(f(G[i])); }, [](size_t i) { return "rotation by " + s4(grid3()[i]); }}); }
}
VF_PART(K01_calls, 4) {
  PS P;
  of4(P, "quat2r", [](const Vector4d& q) { return quat2r(q); }); ofC(P, "r2quat", [](const Matrix3d& C) { return r2quat(C); }); of3(P, "axisAngle2quat", [](const Vector3d& v) { return axisAngle2quat(v); }); of3(P, "qexp", [](const Vector3d& v) { return qexp(v); });
  of4(P, "quat2AxisAngle", [](const Vector4d& q) { return quat2AxisAngle(q); }); of4(P, "quat2AxisAngle<float>", [](const Vector4d& q) { Vector4f f = q.cast<float>(); return quat2AxisAngle<float>(f); }); of4(P, "qlog", [](const Vector4d& q) { return qlog(q); });
  of4(P, "quatPlus", [](const Vector4d& q) { return quatPlus(q); }); of4(P, "quatOPlus", [](const Vector4d& q) { return quatOPlus(q); }); of44(P, "qplus", [](const Vector4d& q, const Vector4d& p) { return qplus(q, p); }); of44(P, "qoplus", [](const Vector4d& q, const Vector4d& p) { return qoplus(q, p); });
  of4(P, "quatInv", [](const Vector4d& q) { return quatInv(q); }); of4(P, "invertQuat", [](const Vector4d& q) { Vector4d r = q; invertQuat(r); return r; }); of44(P, "quatRotate", [](const Vector4d& q, const Vector4d& p) { return quatRotate(q, Vector3d(p.head<3>())); }); of4(P, "qeps", [](const Vector4d& q) { return qeps(q); }); of4(P, "qeta", [](const Vector4d& q) { return qeta(q); });
  of4(P, "quatJacobian", [](const Vector4d& q) { return quatJacobian(q); }); of44(P, "updateQuat", [](const Vector4d& q, const Vector4d& p) { return updateQuat(q, Vector3d(p.head<3>() * 0.1)); }); of4(P, "quatS", [](const Vector4d& q) { return quatS(q); }); of4(P, "quatInvS", [](const Vector4d& q) { return quatInvS(q); });
  for (double t : {0.0, 0.3, 0.7}) of44(P, "qslerp", [t](const Vector4d& q, const Vector4d& p) { return qslerp(q, p, t); });
  static const double ts[] = {-1, 0, 0.25, 0.3, 0.5, 0.75, 1, 2}; static std::vector<Vector4d> Q = grid4(); P.push_back({"qslerp along one arc", 64, [](size_t i) { return vf::bytes(qslerp(Q[1 + i / 8 % 2], Q[i / 8], ts[i % 8])); }, [](size_t i) { return "arc " + vf::str(i / 8) + " at " + vf::str(ts[i % 8]); }});
  P.push_back({"lerp", 64, [](size_t i) { return vf::bytes(lerp(VectorXd(Q[i / 8 % 3].head(1 + i / 8 % 4)), VectorXd(Q[7 + i / 16].head(1 + i / 8 % 4)), ts[i % 8])); }, [](size_t i) { return "line " + vf::str(i / 8) + " at " + vf::str(ts[i % 8]); }});
  of4(P, "quatLogJacobian", [](const Vector4d& q) { return quatLogJacobian(q); }); of4(P, "quatLogJacobian2", [](const Vector4d& q) { return quatLogJacobian2(q); }); of3(P, "quatExpJacobian", [](const Vector3d& v) { return quatExpJacobian(v); }); of3(P, "logDiffMat", [](const Vector3d& v) { return logDiffMat(v); }); of3(P, "expDiffMat", [](const Vector3d& v) { return expDiffMat(v); });
  vf::pure(c, P); c.sample("quat2r of (0.5,0.5,-0.5,0.5) after (0.5,0.5,0.5,0.5)");
}
VF_PART(K02_calls, 4) {
  PS P;
  for (auto& K : kinds()) {
    auto k = K.k; static std::vector<std::string> nm; std::string n = K.n; nm.reserve(100);
    of3(P, K.n, [k](const Vector3d& v) { return k->parametersToRotationMatrix(v); }); P.back().name = n + "::parametersToRotationMatrix"; of3(P, K.n, [k](const Vector3d& v) { Matrix3d S, C = k->parametersToRotationMatrix(v, &S); return (C + 3 * S).eval(); }); P.back().name = n + "::parametersToRotationMatrix with S";
    ofC(P, K.n, [k](const Matrix3d& C) { return k->rotationMatrixToParameters(C); }); P.back().name = n + "::rotationMatrixToParameters"; of3(P, K.n, [k](const Vector3d& v) { return k->parametersToSMatrix(v); }); P.back().name = n + "::parametersToSMatrix";
    of3(P, K.n, [k](const Vector3d& v) { M36 J; k->angularVelocityAndJacobian(v, Vector3d(1, -2, 0.5), &J); return J; }); P.back().name = n + "::angularVelocityAndJacobian in the parameters"; of3(P, K.n, [k](const Vector3d& v) { M36 J; k->angularVelocityAndJacobian(Vector3d(0.2, 0.4, -0.1), v, &J); return J; }); P.back().name = n + "::angularVelocityAndJacobian in the rates";
    of3(P, K.n, [k](const Vector3d& v) { return k->angularVelocityAndJacobian(v, Vector3d(v[1], v[0], 1), NULL); }); P.back().name = n + "::angularVelocityAndJacobian";
    if (K.id == 0) of3(P, "RotationVector::parametersToInverseSMatrix", [k](const Vector3d& v) { return ((RotationVector*)k.get())->parametersToInverseSMatrix(v); });
  }
  of3(P, "Rx", [](const Vector3d& v) { return Rx(v.sum()); }); of3(P, "Ry", [](const Vector3d& v) { return Ry(v.sum()); }); of3(P, "Rz", [](const Vector3d& v) { return Rz(v.sum()); }); of3(P, "Cx", [](const Vector3d& v) { return Cx(v.sum()); }); of3(P, "Cy", [](const Vector3d& v) { return Cy(v.sum()); }); of3(P, "Cz", [](const Vector3d& v) { return Cz(v.sum()); });
  of3(P, "rph2R", [](const Vector3d& v) { return rph2R(v); }); of3(P, "rph2R of numbers", [](const Vector3d& v) { return rph2R(v[0], v[1], v[2]); }); of3(P, "rph2C", [](const Vector3d& v) { return rph2C(v); }); of3(P, "rph2C of numbers", [](const Vector3d& v) { return rph2C(v[0], v[1], v[2]); }); ofC(P, "R2rph", [](const Matrix3d& C) { return R2rph(C); }); ofC(P, "C2rph", [](const Matrix3d& C) { return C2rph(C); });
  of3(P, "crossMx", [](const Vector3d& v) { return crossMx(v); }); of3(P, "crossMx of numbers", [](const Vector3d& v) { return crossMx<double>(v[0], v[1], v[2]); }); of3(P, "axisAngle2R", [](const Vector3d& v) { return axisAngle2R(v); }); of3(P, "axisAngle2R of numbers", [](const Vector3d& v) { return axisAngle2R(v[0], v[1], v[2]); }); ofC(P, "R2AxisAngle", [](const Matrix3d& C) { return R2AxisAngle(C); });
  of3(P, "axisAngle2R of angle and axis", [](const Vector3d& v) { Vector3d u = Vector3d(v[1], v[2], 0.5).normalized(); return axisAngle2R(v[0] * 3, u[0], u[1], u[2]); }); of3(P, "angleMod", [](const Vector3d& v) { return angleMod(v.sum() * 20); }); of3(P, "deg2rad", [](const Vector3d& v) { return deg2rad(v.sum()); }); of3(P, "rad2deg", [](const Vector3d& v) { return rad2deg(v.sum()); });
  vf::pure(c, P); c.sample("RotationVector::parametersToSMatrix of (0.3,0,0.9) after (0.3,0,-0.3)");
}
