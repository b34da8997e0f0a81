// Y03: the Python functions and classes for kinematics give what the C++ ones of the same name give.
#include "pyb.hpp"
#include <deque>
#include <memory>
#include <fstream>
#include <sm/BoostPropertyTree.hpp>
#include <sm/eigen/matrix_sqrt.hpp>
#include <sm/eigen/property_tree.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerRodriguez.hpp>
#include <sm/kinematics/RotationVector.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/UncertainVector.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
#include <sm/kinematics/property_tree.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/random.hpp>
using namespace pyb; using namespace sm::kinematics; using namespace Eigen;
typedef Transformation TF; typedef UncertainTransformation UT; typedef HomogeneousPoint HP; typedef UncertainHomogeneousPoint UHP; typedef Matrix<double, 6, 1> V6; typedef Matrix<double, 6, 6> M6; typedef Matrix<double, 4, 6> M46;
namespace {
const double PI = 3.14159265358979323846;
std::vector<double> angles() { return {0, 0.3, -1.1, 2.5, PI, -PI / 2, 7, 1e-9}; }
std::vector<Vector3d> v3s() { return {{0, 0, 0}, {1, -2, 3}, {0.5, 0.25, -1e-3}, {-2.1, 0.7, 0.4}, {1e-9, 0, 2e-9}, {0, 0, PI}}; }
std::vector<Vector4d> qs() { std::vector<Vector4d> r; for (auto& v : v3s()) r.push_back(axisAngle2quat(v)); r.push_back(Vector4d(0.5, 0.5, -0.5, 0.5)); r.push_back(Vector4d(-0.5, 0.5, 0.1, 0.7).normalized()); r.push_back(Vector4d(1, 0, 0, 0)); return r; }
std::vector<Vector4d> v4s() { std::vector<Vector4d> r = {{1, -2, 3, 1}, {0.5, 0.25, 4, -2}, {3, 1, 2, 0.125}}; return r; }
template <int N> Matrix<double, N, N> cov(int k) { Matrix<double, N, N> A; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) A(i, j) = ((i * 7 + j * 5 + k * 3) % 11 - 4) * 0.3 + (i == j); return A * A.transpose(); }
struct T_ { vf::Ctx& c;
  void num(const std::string& code, Vars v, const std::function<double()>& f, const std::string& what) { one(code, v, [&] { MX m(1, 1); m(0, 0) = f(); return m; }, what, true); }
  void mat(const std::string& code, Vars v, const std::function<MX()>& f, const std::string& what) { one(code, v, f, what, false); }
  void one(const std::string& code, Vars& v, const std::function<MX()>& f, const std::string& what, bool scalar) {
    c.cur(code + "  with " + what); c.eval(true); MX want; std::string e; try { want = f(); } catch (const std::exception& x) { e = x.what(); if (e.empty()) e = "?"; }
    R r = ev(code, v); if (!e.empty()) { c.check(!r.ok(), "error", "the C++ function throws " + e + ", the Python one gives " + show(r)); return; }
    MX got; if (scalar) { double d; if (!get(r, d)) { c.failpl("value", show(r) + " instead of " + vf::str(want(0, 0))); return; } got.resize(1, 1); got(0, 0) = d; } else if (!get(r, got)) { c.failpl("value", show(r) + " instead of " + sm_(want)); return; }
    c.check(eqm(got, want), "value", "gives " + sm_(got) + ", the C++ function " + sm_(want)); c.outcome(sm_(want));
  }
};
std::string s(const MX& m) { return sm_(m); }
}  // namespace
#define FN(code, V, expr, what) t.mat(code, V, [&]() -> MX { return expr; }, what)
#define FD(code, V, expr, what) t.num(code, V, [&]() -> double { return expr; }, what)
VF_PART(Y03_functions) {
  start(); T_ t{c};
  for (double a : angles()) { Vars v = vars()("a", a); std::string w = vf::str(a);
    FN("m.Rx(a)", v, Rx(a), w); FN("m.Ry(a)", v, Ry(a), w); FN("m.Rz(a)", v, Rz(a), w); FN("m.Cx(a)", v, Cx(a), w); FN("m.Cy(a)", v, Cy(a), w); FN("m.Cz(a)", v, Cz(a), w);
    FD("m.angleMod(a)", v, angleMod(a), w); FD("m.deg2rad(a)", v, deg2rad(a), w); FD("m.rad2deg(a)", v, rad2deg(a), w); }
  for (auto& x : v3s()) { Vars v = vars()("v", x)("x", x[0])("y", x[1])("z", x[2]); std::string w = s(x); double a = x[0], b = x[1], d = x[2];
    FN("m.rph2R(x,y,z)", v, rph2R(a, b, d), w); FN("m.rph2R(v)", v, rph2R(x), w); FN("m.rph2C(x,y,z)", v, rph2C(a, b, d), w); FN("m.rph2C(v)", v, rph2C(x), w); FN("m.crossMx(x,y,z)", v, crossMx(a, b, d), w); FN("m.crossMx(v)", v, crossMx(a, b, d), w);
    FN("m.axisAngle2R(x,y,z)", v, axisAngle2R(a, b, d), w); FN("m.axisAngle2R(v)", v, axisAngle2R(x), w); FN("m.axisAngle2quat(v)", v, axisAngle2quat(x), w); FN("m.qexp(v)", v, qexp(x), w); FN("m.toHomogeneous(v)", v, toHomogeneous(x), w); FN("m.toHomogeneousJacobian(v)", v, toHomogeneousJacobian(x), w); }
  std::vector<Matrix3d> Cs; for (auto& q : qs()) Cs.push_back(quat2r(q));
  for (auto& C : Cs) { Vars v = vars()("C", C); std::string w = s(C); FN("m.C2rph(C)", v, C2rph(C), w); FN("m.R2rph(C)", v, R2rph(C), w); FN("m.R2AxisAngle(C)", v, R2AxisAngle(C), w); FN("m.r2quat(C)", v, r2quat(C), w); }
  for (auto& q : qs()) { Vars v = vars()("q", q); std::string w = s(q); FN("m.quat2r(q)", v, quat2r(q), w); FN("m.quat2AxisAngle(q)", v, quat2AxisAngle(q), w); FN("m.qlog(q)", v, qlog(q), w); FN("m.quatPlus(q)", v, quatPlus(q), w); FN("m.quatOPlus(q)", v, quatOPlus(q), w); FN("m.quatInv(q)", v, quatInv(q), w); FN("m.qeps(q)", v, qeps(q), w); FD("m.qeta(q)", v, qeta(q), w); FN("m.quatJacobian(q)", v, quatJacobian(q), w); FN("m.quatS(q)", v, quatS(q), w); FN("m.quatInvS(q)", v, quatInvS(q), w);
    for (auto& x : v3s()) { Vars u = vars()("q", q)("v", x); std::string y = w + ", " + s(x); FN("m.updateQuat(q,v)", u, updateQuat(q, x), y); FN("m.quatRotate(q,v)", u, quatRotate(q, x), y); }
    for (auto& p : qs()) { Vars u = vars()("q", q)("p", p); std::string y = w + ", " + s(p); FN("m.qplus(q,p)", u, qplus(q, p), y); FN("m.qoplus(q,p)", u, qoplus(q, p), y); for (double f : {0.0, 0.25, 1.0}) { Vars z = vars()("q", q)("p", p)("f", f); FN("m.qslerp(q,p,f)", z, qslerp(q, p, f), y); FN("m.lerp(q,p,f)", z, lerp(q, p, f), y); } } }
  FN("m.quatIdentity()", vars(), quatIdentity(), "");
  for (auto& p : v4s()) { Vars v = vars()("p", p); std::string w = s(p); FN("m.fromHomogeneous(p)", v, fromHomogeneous(p), w); FN("m.fromHomogeneousJacobian(p)", v, fromHomogeneousJacobian(p), w); FN("m.boxMinus(p)", v, boxMinus(p), w); }
  for (int n = 0; n < 4; ++n) { MX A(3, n), B(4, n); for (int i = 0; i < A.size(); ++i) A.data()[i] = i * 0.5 - 1; for (int i = 0; i < B.size(); ++i) B.data()[i] = i % 5 + 1; Vars v = vars()("A", A)("B", B); std::string w = vf::str(n) + " columns"; FN("m.toHomogeneousColumns(A)", v, toHomogeneousColumns(A), w); FN("m.fromHomogeneousColumns(B)", v, fromHomogeneousColumns(B), w); FN("m.toHomogeneousColumns(B)", v, toHomogeneousColumns(B), w); }
  for (auto& q : qs()) for (auto& x : v3s()) { Matrix3d C = quat2r(q); Matrix4d T = rt2Transform(C, x); V6 d; d << x, C2rph(C); Vars v = vars()("C", C)("v", x)("T", T)("d", d); for (int i = 0; i < 6; ++i) v((std::string("d") + char('0' + i)).c_str(), d[i]); std::string w = s(T);
    FN("m.rt2Transform(C,v)", v, rt2Transform(C, x), w); FN("m.transform2C(T)", v, transform2C(T), w); FN("m.transform2rho(T)", v, transform2rho(T), w); FN("m.transform2rhoHomogeneous(T)", v, transform2rhoHomogeneous(T), w); FN("m.boxPlus(d)", v, boxPlus(d), w); FN("m.boxTimes(T)", v, boxTimes(T), w); FN("m.inverseTransform(T)", v, inverseTransform(T), w); FN("m.toTEuler(d)", v, toTEuler(d), w); FN("m.toTEuler(d0,d1,d2,d3,d4,d5)", v, toTEuler(d[0], d[1], d[2], d[3], d[4], d[5]), w); FN("m.fromTEuler(T)", v, fromTEuler(T), w);
    for (auto& p : v4s()) { Vars u = vars()("T", T)("p", p); Vector4d o, o2; M46 J, J2; transformationAndJacobian(T, p, o, J); inverseTransformationAndJacobian(T, p, o2, J2); std::string y = w + ", " + s(p); FN("m.transformationAndJacobian(T,p)[0]", u, o, y); FN("m.transformationAndJacobian(T,p)[1]", u, J, y); FN("m.inverseTransformationAndJacobian(T,p)[0]", u, o2, y); FN("m.inverseTransformationAndJacobian(T,p)[1]", u, J2, y); } }
  { MX A = cov<3>(1); Vars v = vars()("A", A)("B", MX(2, 3)); MX S; sm::eigen::computeMatrixSqrt(A, S); FN("m.computeMatrixSqrt(A)", v, S, "a 3x3 matrix"); MX Z = MX::Zero(2, 2), SZ; sm::eigen::computeMatrixSqrt(Z, SZ); FN("m.computeMatrixSqrt(Z)", vars()("Z", Z), SZ, "zero"); c.cur("the root of a 2x3 matrix"); c.eval(true); c.check(!ev("m.computeMatrixSqrt(B)", v).ok(), "error", "gives a result"); }
  // the classes of rotation parameters
  auto rot = [&](auto* x, const std::string& n) { typedef typename std::decay<decltype(*x)>::type K; K k; for (auto& p : v3s()) for (auto& w : v3s()) { if (&w - &v3s()[0] > 100000) continue; Vars v = vars()("p", p)("w", w)("C", Matrix3d(k.parametersToRotationMatrix(p))); std::string y = s(p) + ", " + s(w); std::string o = "m." + n + "()."; FN(o + "parametersToRotationMatrix(p)", v, k.parametersToRotationMatrix(p), y); FN(o + "rotationMatrixToParameters(C)", v, k.rotationMatrixToParameters(k.parametersToRotationMatrix(p)), y); FN(o + "parametersToSMatrix(p)", v, k.parametersToSMatrix(p), y); Matrix<double, 3, 6> J; Vector3d om; try { om = k.angularVelocityAndJacobian(p, w, &J); } catch (const std::exception&) { continue; } FN(o + "angularVelocityAndJacobian(p,w)[0]", v, om, y); FN(o + "angularVelocityAndJacobian(p,w)[1]", v, J, y); } c.cur("base class of " + n); c.eval(true); R r = ev("isinstance(m." + n + "(), m.RotationalKinematics)"); bool b = false; c.check(get(r, b) && b, "base", show(r)); };
  rot((EulerAnglesZYX*)0, "EulerAnglesZYX"); rot((EulerAnglesYawPitchRoll*)0, "EulerAnglesYawPitchRoll"); rot((RotationVector*)0, "RotationVector"); rot((EulerRodriguez*)0, "EulerRodriguez");
  // random values: the same ones as in C++ after the same seed
  for (int k = 0; k < 8; ++k) { auto seed = [&] { std::srand(k); sm::random::seed(k); }; c.cur("random with seed " + vf::str(k));
    seed(); double a = sm::random::normal(), b = sm::random::randn(), d = sm::random::uniform(), e = sm::random::rand(), f = sm::random::randLU(3, 5); int g = sm::random::randLUi(-4, 90); seed();
    ex("m.seed(k)", vars()("k", k)); FD("m.normal()", vars(), a, "the seed"); FD("m.randn()", vars(), b, "the seed"); FD("m.uniform()", vars(), d, "the seed"); FD("m.rand()", vars(), e, "the seed"); FD("m.randLU(3,5)", vars(), f, "the seed"); FD("m.randLUi(-4,90)", vars(), g, "the seed");
    seed(); Vector4d q = quatRandom(); seed(); FN("m.quatRandom()", vars(), q, "the seed"); }
  // property trees
  for (auto& q : qs()) for (auto& x : v3s()) { sm::BoostPropertyTree b; const char* n[] = {"x", "y", "z", "w"}; for (int i = 0; i < 4; ++i) { b.setDouble(std::string("T/q_a_b/") + n[i], q[i]); if (i < 3) b.setDouble(std::string("T/t_a_b_a/") + n[i], x[i]); } Vars v = vars()("b", sm::PropertyTree(b)); sm::PropertyTree T(b, "T"); std::string w = s(q) + ", " + s(x);
    FN("m.transformationFromPropertyTree(m.PropertyTree(b,'T')).T()", v, transformationFromPropertyTree(T).T(), w); FN("m.quaternionFromPropertyTree(m.PropertyTree(b,'T/q_a_b'))", v, sm::eigen::quaternionFromPropertyTree(sm::PropertyTree(b, "T/q_a_b")), w); FN("m.vector3FromPropertyTree(m.PropertyTree(b,'T/t_a_b_a'))", v, sm::eigen::vector3FromPropertyTree(sm::PropertyTree(b, "T/t_a_b_a")), w); FN("m.vector3FromPropertyTree(m.PropertyTree(b,'U'))", v, sm::eigen::vector3FromPropertyTree(sm::PropertyTree(b, "U")), w); }
}
// --- words over the objects: every result has the class and the value the C++ operation has
namespace {
struct Val { int k = 0; TF t; UT u; HP h; UHP g; Vector3d v; };  // 0 Transformation 1 UncertainTransformation 2 HomogeneousPoint 3 UncertainHomogeneousPoint 4 vector
const char* KN[] = {"Transformation", "UncertainTransformation", "HomogeneousPoint", "UncertainHomogeneousPoint", "Mat"};
struct Node { Val v; object o; std::string w; };
Val mk(const TF& t) { Val r; r.k = 0; r.t = t; return r; }
Val mk(const UT& t) { Val r; r.k = 1; r.u = t; return r; }
Val mk(const HP& t) { Val r; r.k = 2; r.h = t; return r; }
Val mk(const UHP& t) { Val r; r.k = 3; r.g = t; return r; }
Val mk(const Vector3d& t) { Val r; r.k = 4; r.v = t; return r; }
const TF& base(const Val& a) { return a.k == 0 ? a.t : a.u; }
const HP& hbase(const Val& a) { return a.k == 2 ? a.h : a.g; }
bool mul(const Val& a, const Val& b, Val& r) {
  if (a.k == 0) { switch (b.k) { case 0: r = mk(a.t * b.t); return true; case 1: r = mk(a.t * b.u); return true; case 2: r = mk(a.t * b.h); return true; case 3: r = mk(a.t * b.g); return true; case 4: r = mk(Vector3d(a.t * b.v)); return true; } }
  if (a.k == 1) { switch (b.k) { case 0: r = mk(a.u * b.t); return true; case 1: r = mk(a.u * b.u); return true; case 2: r = mk(a.u * b.h); return true; case 3: r = mk(a.u * b.g); return true; } }
  return false;
}
bool add(const Val& a, const Val& b, int sgn, Val& r) {
  if (a.k == 2 && b.k == 2) { r = mk(sgn > 0 ? a.h + b.h : a.h - b.h); return true; }
  if (a.k == 2 && b.k == 3) { r = mk(sgn > 0 ? a.h + b.g : a.h - b.g); return true; }
  if (a.k == 3 && b.k == 2) { r = mk(sgn > 0 ? a.g + b.h : a.g - b.h); return true; }
  if (a.k == 3 && b.k == 3) { r = mk(sgn > 0 ? a.g + b.g : a.g - b.g); return true; }
  return false;
}
void same(vf::Ctx& c, const R& r, const Val& w, const std::string& what) {
  std::string k = std::string(KN[w.k]); if (!c.check(r.ok(), "raises", what + " " + show(r) + " instead of a " + k)) return;
  if (!c.check(tname(r.v) == k, "class", what + " is of class " + tname(r.v) + " instead of " + k)) return;
  auto m = [&](const char* acc, const MX& want) { MX g; R x = ev(std::string("o.") + acc, vars()("o", r.v)); c.check(get(x, g) && eqm(g, want), "content", what + ": " + acc + " is " + show(x) + " instead of " + sm_(want)); };
  if (w.k <= 1) { const TF& b = base(w); m("T()", b.T()); m("C()", b.C()); m("t()", b.t()); m("q()", b.q()); m("T3x4()", b.T3x4()); m("S()", b.S()); R x = ev("o.checkTransformationIsValid()", vars()("o", r.v)); c.check(x.ok(), "content", what + ": the check of validity " + show(x)); }
  if (w.k == 1) m("U()", w.u.U());
  if (w.k == 2 || w.k == 3) { m("toHomogeneous()", hbase(w).toHomogeneous()); Vector3d e; bool ok = true; try { e = hbase(w).toEuclidean(); } catch (const std::exception&) { ok = false; } if (ok && e.allFinite()) m("toEuclidean()", e); }
  if (w.k == 3) { m("U4()", w.g.U4()); auto may = [&](const char* a, const std::function<MX()>& f) { MX x; try { x = f(); } catch (const std::exception&) { c.check(!ev(std::string("o.") + a, vars()("o", r.v)).ok(), "content", what + ": " + a + " gives a result"); return; } m(a, x); };
    may("U3()", [&]() -> MX { return w.g.U3(); }); may("U_av_form()", [&]() -> MX { return w.g.U_av_form(); }); }
  if (w.k == 4) { MX g; c.check(get(r, g) && eqm(g, w.v), "content", what + " is " + show(r) + " instead of " + sm_(w.v)); }
}
std::string key(const Val& w) { std::ostringstream o; o.precision(9); o << w.k << " "; if (w.k <= 1) o << base(w).q().transpose() << base(w).t().transpose(); if (w.k == 1) o << w.u.U(); if (w.k == 2 || w.k == 3) o << hbase(w).toHomogeneous().transpose(); if (w.k == 3) o << w.g.U4(); if (w.k == 4) o << w.v.transpose(); return o.str(); }
}  // namespace
VF_PART(Y03_words, 8) {
  start(); std::vector<Node> pool; int D = c.thorough ? 4 : 3;
  auto put = [&](const Val& v, const std::string& code, Vars a) { R r = ev(code, a); c.cur(code); c.eval(true); same(c, r, v, code); if (r.ok() && tname(r.v) == KN[v.k]) pool.push_back({v, r.v, code}); };
  Vector4d q1 = axisAngle2quat(Vector3d(0.3, -0.7, 1.1)), q2 = axisAngle2quat(Vector3d(-2, 0.5, 0.25)); Vector3d t1(1, -2, 3), t2(0.5, 4, -0.25); Matrix4d T1 = TF(q1, t1).T(); M6 U1 = cov<6>(1), U2 = cov<6>(5); Matrix3d P3 = cov<3>(2); Matrix4d P4 = cov<4>(3); Vector4d h1(1, 2, -3, 2), h2 = Vector4d(0.25, 5, 1, 0.5).normalized();
  Vars a = vars()("q1", q1)("q2", q2)("t1", t1)("t2", t2)("T1", T1)("U1", U1)("U2", U2)("P3", P3)("P4", P4)("h1", h1)("h2", h2);
  auto Tm = [&](const char* e) { return ev(e, a).v; }; a("T", Tm("m.Transformation(q2,t2)")); a("H", Tm("m.HomogeneousPoint(h2)"));
  put(mk(TF()), "m.Transformation()", a); put(mk(TF(q2, t2)), "m.Transformation(q2,t2)", a); put(mk(TF(T1)), "m.Transformation(T1)", a);
  size_t nt = pool.size(); (void)nt;
  put(mk(UT()), "m.UncertainTransformation()", a); put(mk(UT(T1, U1)), "m.UncertainTransformation(T1,U1)", a); put(mk(UT(q2, t2, U2)), "m.UncertainTransformation(q2,t2,U2)", a);
  put(mk(UT(T1, 0.5, 0.25)), "m.UncertainTransformation(T1,0.5,0.25)", a); put(mk(UT(q1, t1, 2., 3.)), "m.UncertainTransformation(q1,t1,2.0,3.0)", a); put(mk(UT(TF(q2, t2), U1)), "m.UncertainTransformation(T,U1)", a); put(mk(UT(TF(q2, t2), 0.1, 0.2)), "m.UncertainTransformation(T,0.1,0.2)", a); put(mk(UT(TF(q2, t2))), "m.UncertainTransformation(T)", a); put(mk(UT(T1)), "m.UncertainTransformation(T1)", a); put(mk(UT(q1, t2)), "m.UncertainTransformation(q1,t2)", a);
  put(mk(HP()), "m.HomogeneousPoint()", a); put(mk(HP(t1)), "m.HomogeneousPoint(t1)", a); put(mk(HP(h1)), "m.HomogeneousPoint(h1)", a);
  put(mk(UHP()), "m.UncertainHomogeneousPoint()", a); put(mk(UHP(t1, P3)), "m.UncertainHomogeneousPoint(t1,P3)", a); put(mk(UHP(h1, P4)), "m.UncertainHomogeneousPoint(h1,P4)", a); put(mk(UHP(h2, P3)), "m.UncertainHomogeneousPoint(h2,P3)", a); put(mk(UHP(HP(h2), P4)), "m.UncertainHomogeneousPoint(H,P4)", a); put(mk(UHP(HP(h2), P3)), "m.UncertainHomogeneousPoint(H,P3)", a); put(mk(UHP(t2)), "m.UncertainHomogeneousPoint(t2)", a); put(mk(UHP(h2)), "m.UncertainHomogeneousPoint(h2)", a); put(mk(UHP(HP(h2))), "m.UncertainHomogeneousPoint(H)", a);
  { Node n; n.v = mk(t2); n.o = object(MX(t2)); n.w = "t2"; pool.push_back(n); }
  // the starts that take part in the words
  std::vector<Node> gen; for (auto& n : pool) for (const char* w : {"m.Transformation(q2,t2)", "m.UncertainTransformation(T1,U1)", "m.UncertainTransformation(T,0.1,0.2)", "m.HomogeneousPoint(h1)", "m.UncertainHomogeneousPoint(h1,P4)", "m.UncertainHomogeneousPoint(h2,P3)", "t2"}) if (n.w == w) gen.push_back(n);
  std::deque<std::pair<Node, int>> todo; std::set<std::string> seen; for (size_t i = 0; i < pool.size(); ++i) if (c.mine(i)) { todo.push_back({pool[i], 0}); seen.insert(key(pool[i].v)); c.state(key(pool[i].v)); }
  const std::string dir = c.scratch();
  while (!todo.empty()) {
    Node n = todo.front().first; int depth = todo.front().second; todo.pop_front(); if (depth >= D) continue; std::string before = key(n.v);
    auto reach = [&](const R& r, const Val& v, const std::string& w) { c.transition(); same(c, r, v, w); if (!r.ok() || tname(r.v) != KN[v.k]) return; std::string k = key(v); if (k.find("nan") != std::string::npos || k.find("inf") != std::string::npos || k.find("e+") != std::string::npos) return; c.outcome(k); if (seen.insert(k).second) { c.state(k); todo.push_back({{v, r.v, w}, depth + 1}); } };
    for (auto& g : gen) for (int side = 0; side < 2; ++side) for (int op = 0; op < 3; ++op) { const Node &x = side ? g : n, &y = side ? n : g; Val r; bool def = op == 0 ? mul(x.v, y.v, r) : add(x.v, y.v, op == 1 ? 1 : -1, r); if (!def) continue; const char* os[] = {" * ", " + ", " - "}; std::string w = "(" + x.w + os[op] + y.w + ")"; c.cur(w); reach(ev(std::string("a") + os[op] + "b", vars()("a", x.o)("b", y.o)), r, w); same(c, R{x.o, ""}, x.v, w + " leaves its left operand"); same(c, R{y.o, ""}, y.v, w + " leaves its right operand"); }
    auto un = [&](const std::string& code, const Val& v, const std::string& w) { c.cur(n.w + w); reach(ev(code, vars()("a", n.o)("U", U2)("U6", U1)("P", P4)("P3", P3)("f", dir + "/x.ba")), v, n.w + w); same(c, R{n.o, ""}, n.v, n.w + w + " leaves its operand"); };
    auto mod = [&](const std::string& code, const Val& v, const std::string& w) { un("[m." + std::string(KN[n.v.k]) + "(" + (n.v.k == 0 ? "a.q(),a.t()" : n.v.k == 1 ? "a.q(),a.t(),a.U()" : n.v.k == 2 ? "a.toHomogeneous()" : "a.toHomogeneous(),a.U4()") + ")" + "][0]", n.v, ".copy"); R r = ev("[(lambda o: (o." + code + ", o))(m." + KN[n.v.k] + "(" + (n.v.k == 0 ? "a.q(),a.t()" : n.v.k == 1 ? "a.q(),a.t(),a.U()" : n.v.k == 2 ? "a.toHomogeneous()" : "a.toHomogeneous(),a.U4()") + "))][0][1]", vars()("a", n.o)("U", U2)("U6", U1)("P", P4)("P3", P3)); c.cur(n.w + w); reach(r, v, n.w + w); };
    if (n.v.k == 0) { un("a.inverse()", mk(n.v.t.inverse()), ".inverse"); un("pickle.loads(pickle.dumps(a))", n.v, ".pickle"); un("copy.deepcopy(a)", n.v, ".deepcopy"); un("copy.copy(a)", n.v, ".copy"); un("(lambda o: (a.save(f), o.load(f), o))(m.Transformation())[2]", n.v, ".save-load"); { TF x = n.v.t; x.setIdentity(); mod("setIdentity()", mk(x), ".setIdentity"); } for (int k = 0; k < 2; ++k) { std::srand(7 + depth); sm::random::seed(depth); TF x = n.v.t; if (k) x.setRandom(3, 0.5); else x.setRandom(); std::srand(7 + depth); sm::random::seed(depth); c.cur(n.w + ".setRandom"); R r = ev(std::string("(lambda o: (o.setRandom(") + (k ? "3.0,0.5" : "") + "), o))(m.Transformation(a.q(),a.t()))[1]", vars()("a", n.o)); same(c, r, mk(x), n.w + ".setRandom"); } for (auto& g : gen) if (g.v.k <= 1) for (double f : {0.0, 0.5, 1.0}) { Val z = mk(slerpTransformations(n.v.t, base(g.v), f)); c.cur("slerpTransformations"); same(c, ev("m.slerpTransformations(a,b,f)", vars()("a", n.o)("b", g.o)("f", f)), z, "slerpTransformations"); same(c, ev("m.interpolateTransformations(a,1.0,b,3.0,f)", vars()("a", n.o)("b", g.o)("f", 1 + 2 * f)), mk(interpolateTransformations(n.v.t, 1, base(g.v), 3, 1 + 2 * f)), "interpolateTransformations"); } }
    if (n.v.k == 1) { un("a.inverse()", mk(n.v.u.inverse()), ".inverse"); un("pickle.loads(pickle.dumps(a))", n.v, ".pickle"); un("copy.deepcopy(a)", n.v, ".deepcopy"); un("copy.copy(a)", n.v, ".copy"); un("(lambda o: (a.save(f), o.load(f), o))(m.UncertainTransformation())[2]", n.v, ".save-load"); { UT x = n.v.u; x.setIdentity(); mod("setIdentity()", mk(x), ".setIdentity"); x = n.v.u; x.setU(U2); mod("setU(U)", mk(x), ".setU"); x = n.v.u; x.setUOplus(U1); mod("setUOplus(U6)", mk(x), ".setUOplus"); } for (int k = 0; k < 2; ++k) { std::srand(7 + depth); sm::random::seed(depth); UT x = n.v.u; if (k) x.setRandom(3, 0.5); else x.setRandom(); std::srand(7 + depth); sm::random::seed(depth); c.cur(n.w + ".setRandom"); R r = ev(std::string("(lambda o: (o.setRandom(") + (k ? "3.0,0.5" : "") + "), o))(m.UncertainTransformation(a.q(),a.t(),a.U()))[1]", vars()("a", n.o)); same(c, r, mk(x), n.w + ".setRandom"); } }
    if (n.v.k == 2) { HP x = n.v.h; x.setZero(); mod("setZero()", mk(x), ".setZero"); bool ok = true; x = n.v.h; try { x.normalize(); } catch (const std::exception&) { ok = false; } if (ok) mod("normalize()", mk(x), ".normalize"); std::srand(depth); x.setRandom(); std::srand(depth); c.cur(n.w + ".setRandom"); same(c, ev("(lambda o: (o.setRandom(), o))(m.HomogeneousPoint())[1]"), mk(x), n.w + ".setRandom"); }
    if (n.v.k == 3) { UHP x = n.v.g; x.setU(P4); mod("setU(P)", mk(x), ".setU"); bool ok = true; x = n.v.g; try { x.setUOplus(P3); } catch (const std::exception&) { ok = false; } if (ok) mod("setUOplus(P3)", mk(x), ".setUOplus"); ok = true; x = n.v.g; try { x.normalize(); } catch (const std::exception&) { ok = false; } if (ok) mod("normalize()", mk(x), ".normalize"); std::srand(depth); x = UHP(); x.setRandom(); std::srand(depth); c.cur(n.w + ".setRandom"); same(c, ev("(lambda o: (o.setRandom(), o))(m.UncertainHomogeneousPoint())[1]"), mk(x), n.w + ".setRandom"); }
    if (key(n.v) != before) c.failpl("reference", "the reference changed");
    c.trace();
  }
}
// --- uncertain vectors
namespace {
template <class UV> struct Acc { static MX v(const UV& u) { return u.v(); } static MX E(const UV& u) { return u.E(); } };
template <> struct Acc<UncertainVector<1>> { static MX v(const UncertainVector<1>& u) { return MX::Constant(1, 1, u.v()); } static MX E(const UncertainVector<1>& u) { return MX::Constant(1, 1, u.E()); } };
MX asm_(const R& r) { MX g; double d; if (get(r, g)) return g; if (get(r, d)) return MX::Constant(1, 1, d); return MX(); }
template <int D> void isuv(vf::Ctx& c, const R& r, const UncertainVector<D>& w, const std::string& what) {
  c.transition(); std::string k = D == 1 ? "UncertainScalar" : "UncertainVector" + vf::str(D); if (!c.check(r.ok() && tname(r.v) == k, "uncertain-vector", what + ": " + show(r) + " instead of a " + k)) return;
  for (auto* f : {"v", "mean", "E", "covariance"}) { bool e = f[0] == 'E' || f[0] == 'c'; MX want = e ? Acc<UncertainVector<D>>::E(w) : Acc<UncertainVector<D>>::v(w), g = asm_(ev(std::string("o.") + f + "()", vars()("o", r.v))); c.check(eqm(g, want), "uncertain-vector", what + ": " + f + "() is " + sm_(g) + " instead of " + sm_(want)); }
}
template <int D> void uv(vf::Ctx& c) {
  typedef UncertainVector<D> U; typedef Matrix<double, D, 1> V; std::string K = "m.UncertainVector" + vf::str(D); std::vector<std::pair<U, object>> p; std::vector<V> vs;
  for (int k = 0; k < 3; ++k) { V v; for (int i = 0; i < D; ++i) v[i] = (i * 3 + k * 5) % 7 - 2.5; vs.push_back(v); Vars a = vars()("v", v)("E", Matrix<double, D, D>(cov<D>(k))); c.cur(K + "(v" + vf::str(k) + ",E)"); R r = ev(K + "(v,E)", a); U u(v, cov<D>(k)); isuv<D>(c, r, u, "the object"); if (r.ok()) p.push_back({u, r.v}); isuv<D>(c, ev(K + "(v)", a), U(v), K + "(v)"); }
  isuv<D>(c, ev(K + "()"), U(), K + "()"); UncertainVector<1> s(1.5, 0.25); object so = ev("m.UncertainScalar(1.5,0.25)").v;
  for (auto& x : p) { c.cur(K + " with mean " + sm_(x.first.v())); Vars a = vars()("a", x.second)("s", so)("E", Matrix<double, D, D>(cov<D>(9)))("w", vs[0]);
    isuv<D>(c, ev("a * s", a), x.first * s, "times a scalar"); isuv<D>(c, ev("a * 2.5", a), x.first * 2.5, "times 2.5"); isuv<D>(c, ev("a + w", a), x.first + vs[0], "plus a vector"); isuv<D>(c, ev("a - w", a), x.first - vs[0], "minus a vector"); { U y = x.first; isuv<D>(c, ev("a.normalized()", a), y.normalized(), "normalized()"); } isuv<1>(c, ev("a.dotV(w)", a), x.first.dot(vs[0]), "dotV");
    { U y = x.first; y.normalize(); isuv<D>(c, ev("(lambda o: (o.normalize(), o))(" + K + "(a.v(),a.E()))[1]", a), y, "normalize()"); y = x.first; y.setMean(vs[0]); isuv<D>(c, ev("(lambda o: (o.setMean(w), o))(" + K + "(a.v(),a.E()))[1]", a), y, "setMean()"); y = x.first; y.setCovariance(cov<D>(9)); isuv<D>(c, ev("(lambda o: (o.setCovariance(E), o))(" + K + "(a.v(),a.E()))[1]", a), y, "setCovariance()"); }
    for (auto& y : p) { Vars b = vars()("a", x.second)("b", y.second); isuv<D>(c, ev("a + b", b), x.first + y.first, "a + b"); isuv<D>(c, ev("a - b", b), x.first - y.first, "a - b"); isuv<1>(c, ev("a.dot(b)", b), x.first.dot(y.first), "dot"); }
    isuv<D>(c, R{x.second, ""}, x.first, "after all of these"); c.trace(); c.state(K + sm_(x.first.v())); }
}
}  // namespace
VF_PART(Y03_vectors) {
  start(); uv<2>(c); uv<3>(c); uv<4>(c); uv<5>(c); uv<6>(c); typedef UncertainVector<1> U; std::vector<std::pair<U, object>> p;
  for (double v : {1.5, -2.0, 4.0}) for (double e : {0.0, 0.25, 3.0}) { c.cur("UncertainScalar(%g,%g)", v, e); R r = ev("m.UncertainScalar(v,e)", vars()("v", v)("e", e)); isuv<1>(c, r, U(v, e), "the object"); if (r.ok()) p.push_back({U(v, e), r.v}); isuv<1>(c, ev("m.UncertainScalar(v)", vars()("v", v)), U(v), "of a value"); }
  c.cur("UncertainScalar()"); isuv<1>(c, ev("m.UncertainScalar()"), U(), "the empty one");
  for (auto& x : p) { c.cur("UncertainScalar %g", x.first.v()); Vars a = vars()("a", x.second); isuv<1>(c, ev("a + 2.5", a), x.first + 2.5, "+ 2.5"); isuv<1>(c, ev("a - 2.5", a), x.first - 2.5, "- 2.5"); isuv<1>(c, ev("a * 2.5", a), x.first * 2.5, "* 2.5"); isuv<1>(c, ev("a / 2.5", a), x.first / 2.5, "/ 2.5"); isuv<1>(c, ev("a.dotV(2.5)", a), x.first.dot(2.5), "dotV"); { U y = x.first; y.setMean(7); isuv<1>(c, ev("(lambda o: (o.setMean(7.0), o))(m.UncertainScalar(a.v(),a.E()))[1]", a), y, "setMean"); y = x.first; y.setCovariance(7); isuv<1>(c, ev("(lambda o: (o.setCovariance(7.0), o))(m.UncertainScalar(a.v(),a.E()))[1]", a), y, "setCovariance"); }
    for (auto& y : p) { Vars b = vars()("a", x.second)("b", y.second); isuv<1>(c, ev("a + b", b), x.first + y.first, "a + b"); isuv<1>(c, ev("a - b", b), x.first - y.first, "a - b"); isuv<1>(c, ev("a * b", b), x.first * y.first, "a * b"); isuv<1>(c, ev("a / b", b), x.first / y.first, "a / b"); isuv<1>(c, ev("a.dot(b)", b), x.first.dot(y.first), "dot"); } isuv<1>(c, R{x.second, ""}, x.first, "after all of these"); c.trace(); c.state(vf::str(x.first.v())); }
}
