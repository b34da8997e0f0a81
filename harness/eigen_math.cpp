// E02 matrix square root, derivatives, finiteness.
#include "vf.hpp"
#include "fresh.hpp"
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <limits>
#include <sm/eigen/NumericalDiff.hpp>
#include <sm/eigen/assert_macros.hpp>
#include <sm/eigen/matrix_sqrt.hpp>
#include <sm/eigen/serialization.hpp>
using Eigen::Dynamic; using Eigen::Matrix; using Eigen::MatrixXd; using Eigen::VectorXd;
namespace {
template <class M, class N> bool same(const M& a, const N& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (!(a(i, j) == b(i, j))) return false; return true; }
}
// ------------------------------------------------------------------- E02
namespace {
template <class A, class B> double relerr(const A& a, const B& b) { double m = a.size() ? a.cwiseAbs().maxCoeff() : 0; return a.size() ? (a - b).cwiseAbs().maxCoeff() / (m > 0 ? m : 1) : 0; }
template <class IN, class OUT> void sq(vf::Ctx& c, const IN& A, const char* how) {
  OUT S; sm::eigen::computeMatrixSqrt(A, S);
  MatrixXd R = S * S.transpose(); MatrixXd M = A;
  bool fin = true; for (int i = 0; i < S.rows(); ++i) for (int j = 0; j < S.cols(); ++j) fin &= std::isfinite((double)S(i, j));
  c.check(fin, "finite", std::string(how) + ": the square root is not finite"); if (!fin) return;
  c.check(S.rows() == M.rows() && S.cols() == M.cols() && relerr(M, R) < 1e-13, "square", std::string(how) + ": the square differs by " + vf::str(relerr(M, R)));
}
}
// all matrices B B' with entries of B from a small alphabet: every rank up to full
VF_PART(E02_square_root, 16) {
  double al[] = {0, 1, -0.3, 0.7}; int na = c.thorough ? 4 : 3; uint64_t n = 0;
  for (int d = 1; d <= 3; ++d) for (int r = 1; r <= d; ++r) {
    long tot = 1; for (int i = 0; i < d * r; ++i) tot *= na;
    for (long w = 0; w < tot; ++w) {
      if (!c.mine(n++)) continue;
      MatrixXd B(d, r); long x = w; for (int i = 0; i < d * r; ++i, x /= na) B.data()[i] = al[x % na];
      for (double sc : {1.0, 1e-9, 1e9}) {
        MatrixXd A = sc * B * B.transpose(); std::ostringstream o; o.precision(17); for (int i = 0; i < A.size(); ++i) o << (i ? " " : "") << A.data()[i]; c.cur("%dx%d: %s", d, d, o.str().c_str());
        sq<MatrixXd, MatrixXd>(c, A, "dynamic"); if (d == 3) { sq<Eigen::Matrix3d, Eigen::Matrix3d>(c, A, "fixed"); sq<MatrixXd, Eigen::Matrix3d>(c, A, "dynamic to fixed"); } if (d == 2) sq<Eigen::Matrix2d, MatrixXd>(c, A, "fixed to dynamic");
        c.eval(A.cwiseAbs().maxCoeff() > 0); c.state(o.str()); c.transition(); c.trace();
      }
    }
  }
  if (c.mine(0)) { c.cur("expressions"); Eigen::Matrix3d S; sm::eigen::computeMatrixSqrt(Eigen::Matrix3d::Identity(), S); c.check(same(S * S.transpose(), Eigen::Matrix3d::Identity()), "square", "root of the identity"); Eigen::Vector3d v(4, 0, 9); Eigen::Matrix3d D = v.asDiagonal(); sm::eigen::computeMatrixSqrt(D, S); c.check(relerr(D, S * S.transpose()) < 1e-15, "square", "root of a diagonal"); Eigen::Matrix3d A = D; A(0, 2) = A(2, 0) = 1; Eigen::Matrix3d A0 = A; sm::eigen::computeMatrixSqrt(A, A); c.check(relerr(A0, A * A.transpose()) < 1e-14, "square", "root in place");
    bool t = false; MatrixXd Z(2, 3), O; Z.setOnes(); try { sm::eigen::computeMatrixSqrt(Z, O); } catch (const std::runtime_error&) { t = true; } c.check(t, "shape", "a matrix that is not square is accepted"); }
  c.sample("3x3 of rank 1: 0.09 -0.21 ...");
}
namespace {
// polynomial maps x -> (coefficients of degree <= 2), with their exact Jacobians
struct Poly { int M, N; std::vector<double> q; Poly(int M, int N, int k) : M(M), N(N) { for (int i = 0; i < M * (1 + N + N * N); ++i) q.push_back(((i * 7 + k * 13) % 9 - 4) * 0.5); }
  VectorXd f(const VectorXd& x) const { VectorXd r(M); for (int m = 0; m < M; ++m) { const double* p = &q[m * (1 + N + N * N)]; r[m] = p[0]; for (int i = 0; i < N; ++i) { r[m] += p[1 + i] * x[i]; for (int j = 0; j < N; ++j) r[m] += p[1 + N + i * N + j] * x[i] * x[j]; } } return r; }
  MatrixXd J(const VectorXd& x) const { MatrixXd r(M, N); for (int m = 0; m < M; ++m) { const double* p = &q[m * (1 + N + N * N)]; for (int i = 0; i < N; ++i) { r(m, i) = p[1 + i]; for (int j = 0; j < N; ++j) r(m, i) += (p[1 + N + i * N + j] + p[1 + N + j * N + i]) * x[j]; } } return r; }
  double mag(const VectorXd& x) const { double s = x.cwiseAbs().sum() + 1; return 20 * M * s * s; } };
template <int M, int N> Matrix<double, M, 1> fixedf(const Poly* p, const Matrix<double, N, 1>& x) { return p->f(x); }
}
VF_PART(E02_derivatives) {
  double al[] = {0, 1, -2.5, 1000};
  for (int M = 1; M <= 3; ++M) for (int N = 1; N <= 3; ++N) for (int k = 0; k < 6; ++k) for (int w = 0; w < 64; ++w) {
    if (N < 3 && w >= (N == 1 ? 4 : 16)) break;
    Poly p(M, N, k); VectorXd x(N); for (int i = 0, y = w; i < N; ++i, y /= 4) x[i] = al[y % 4];
    c.cur("polynomial %d from %d to %d at %d", k, N, M, w); MatrixXd J = p.J(x);
    typedef sm::eigen::NumericalDiffFunctor<VectorXd, VectorXd> Fn; long calls = 0;
    boost::function<VectorXd(VectorXd)> f = [&](const VectorXd& v) { ++calls; return p.f(v); };
    for (double eps : {0.0, 1e-6, 1e-3}) {
      MatrixXd E = eps == 0.0 ? sm::eigen::NumericalDiff<Fn>(Fn(f)).estimateJacobian(x) : sm::eigen::NumericalDiff<Fn>(Fn(f), eps).estimateJacobian(x); double e = eps == 0.0 ? 1.4e-8 : eps;
      c.check(E.rows() == M && E.cols() == N, "shape", "wrong size");
      if (E.rows() == M && E.cols() == N) c.check((E - J).cwiseAbs().maxCoeff() <= 1e-15 * p.mag(x) / e + 1e-15, "jacobian", "differs by " + vf::str((E - J).cwiseAbs().maxCoeff()));
      MatrixXd G = eps == 0.0 ? sm::eigen::numericalDiff(std::function<VectorXd(const VectorXd&)>([&](const VectorXd& v) { return p.f(v); }), x) : sm::eigen::numericalDiff(std::function<VectorXd(const VectorXd&)>([&](const VectorXd& v) { return p.f(v); }), x, eps);
      c.check(same(E, G), "function", "numericalDiff gives another Jacobian than NumericalDiff");
    }
    if (M == 2 && N == 3) { typedef Matrix<double, 2, 1> V2; typedef Eigen::Vector3d V3; typedef sm::eigen::NumericalDiffFunctor<V2, V3, Matrix<double, 2, 3> > FF; V3 x3 = x; FF ff([&](const V3& v) { return fixedf<2, 3>(&p, v); }); Matrix<double, 2, 3> E = sm::eigen::NumericalDiff<FF>(ff).estimateJacobian(x3); c.check((E - J).cwiseAbs().maxCoeff() <= 1e-7 * p.mag(x), "jacobian", "fixed size differs"); }
    c.eval(); c.transition(); c.trace(); c.state(vf::str(M) + vf::str(N) + vf::str(k) + "," + vf::str(w));
  }
  // far from the origin the step grows with each coordinate
  double far[] = {1e8, -1e8, -3, 1e4};
  for (int M = 1; M <= 3; ++M) for (int N = 1; N <= 3; ++N) for (int k = 0; k < 6; ++k) for (int w = 0; w < 64; ++w) {
    if (N < 3 && w >= (N == 1 ? 4 : 16)) break;
    Poly p(M, N, k); VectorXd x(N); for (int i = 0, y = w; i < N; ++i, y /= 4) x[i] = far[y % 4];
    c.cur("polynomial %d from %d to %d, far point %d", k, N, M, w); MatrixXd J = p.J(x); typedef sm::eigen::NumericalDiffFunctor<VectorXd, VectorXd> Fn; boost::function<VectorXd(VectorXd)> f = [&](const VectorXd& v) { return p.f(v); };
    for (double eps : {0.0, 1e-6, 1e-3}) {
      MatrixXd E = eps == 0.0 ? sm::eigen::NumericalDiff<Fn>(Fn(f)).estimateJacobian(x) : sm::eigen::NumericalDiff<Fn>(Fn(f), eps).estimateJacobian(x); double e = eps == 0.0 ? 1.4e-8 : eps;
      for (int i = 0; i < N; ++i) c.check((E - J).col(i).cwiseAbs().maxCoeff() <= 1e-15 * p.mag(x) / (e * std::max(1.0, std::fabs(x[i]))) + 1e-15 * p.mag(x), "far-jacobian", "column " + vf::str(i) + " differs by " + vf::str((E - J).col(i).cwiseAbs().maxCoeff()));
    }
    c.eval(); c.transition(); c.trace(); c.state("far" + vf::str(M) + vf::str(N) + vf::str(k) + "," + vf::str(w));
  }
  c.sample("polynomial 3 from 2 to 3 at (1, -2.5)");
}
VF_PART(E02_finite) {
  double al[] = {1, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::max()};
  for (int R = 0; R <= 3; ++R) for (int C = 0; C <= 3; ++C) for (int i = -1; i < R * C; ++i) for (int a = 0; a < 5; ++a) for (int dbg = 0; dbg < 2; ++dbg) {
    MatrixXd m = MatrixXd::Constant(R, C, 2.0); if (i >= 0) m(i / C, i % C) = al[a]; bool bad = i >= 0 && !std::isfinite(al[a]); int msg = 0; bool t = false; std::string what;
    c.cur("%dx%d with %g at %d", R, C, al[a], i);
    try { if (dbg) { SM_ASSERT_MAT_IS_FINITE_DBG(std::domain_error, m, "note " << ++msg) } else { SM_ASSERT_MAT_IS_FINITE(std::domain_error, m, "note " << ++msg) } } catch (const std::domain_error& e) { t = true; what = e.what(); }
    c.check(t == bad && msg == (bad ? 1 : 0), "finite", t ? "a finite matrix is refused" : "a matrix that is not finite is accepted");
    if (t) c.check(what.find("(" + vf::str(i / C) + ", " + vf::str(i % C) + ")") != std::string::npos && what.find("note 1") != std::string::npos, "text", what);
    // operands and messages with the caller's own variables, whatever their names
    for (int r = 0; r < R; ++r) {
      t = false; try { if (dbg) { SM_ASSERT_MAT_IS_FINITE_DBG(std::domain_error, m.row(r), "row " << r) } else { SM_ASSERT_MAT_IS_FINITE(std::domain_error, m.row(r), "row " << r) } } catch (const std::domain_error& e) { t = true; what = e.what(); }
      bool here = bad && i / C == r;
      c.check(t == here, "finite-row", "row " + vf::str(r) + (t ? " is refused though finite" : " is accepted though not finite"));
      if (t) c.check(what.find("(0, " + vf::str(i % C) + ")") != std::string::npos && what.find("row " + vf::str(r)) != std::string::npos, "text-row", what);
    }
    for (int c_ = 0; c_ < C; ++c_) {
      t = false; { int c = c_; try { if (dbg) { SM_ASSERT_MAT_IS_FINITE_DBG(std::domain_error, m.col(c), "col " << c) } else { SM_ASSERT_MAT_IS_FINITE(std::domain_error, m.col(c), "col " << c) } } catch (const std::domain_error& e) { t = true; what = e.what(); } }
      bool here = bad && i % C == c_;
      c.check(t == here, "finite-col", "column " + vf::str(c_) + (t ? " is refused though finite" : " is accepted though not finite"));
      if (t) c.check(what.find("(" + vf::str(i / C) + ", 0)") != std::string::npos && what.find("col " + vf::str(c_)) != std::string::npos, "text-col", what);
    }
    t = false; try { if (dbg) { SM_ASSERT_MAT_IS_FINITE_DBG(std::domain_error, (m * 1.0 + m), "") } else { SM_ASSERT_MAT_IS_FINITE(std::domain_error, (m * 1.0 + m), "") } } catch (const std::domain_error&) { t = true; }
    c.check(t == (i >= 0 && a != 0), "finite-expression", "an expression of matrices");
    c.eval(bad); c.trace(); c.transition(); c.state(vf::str(R) + vf::str(C) + vf::str(i) + vf::str(a));
  }
}
// large matrices of every rank, and functions of many variables
VF_PART(E02_large, 8) {
  int i = 0;
  for (int n : {0, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 64, 65}) for (int r = 0; r <= n; ++r) for (int k = 0; k < 3; ++k) {
    if (n > 17 && r != n && r != n - 1 && r != n / 2 && r != 1 && r != 0) continue;
    if (!c.mine(i++)) continue;
    MatrixXd B(n, r); for (int a = 0; a < n; ++a) for (int b = 0; b < r; ++b) B(a, b) = k == 0 ? std::cos(a * 1.7 + b * b * 0.9 + a * b) : k == 1 ? ((a * 7 + b * 3 + a * b) % 5 - 2) * std::pow(10.0, (a % 3) - 1) : (a + 3 * b) % 4 == 0 ? 1 : 0;
    MatrixXd A = B * B.transpose(); A = (0.5 * (A + A.transpose())).eval(); c.cur("%dx%d of rank %d, pattern %d", n, n, r, k); c.state(vf::str(n) + "/" + vf::str(r) + "/" + vf::str(k)); c.eval(r > 0); c.transition(); c.trace();
    MatrixXd S; sm::eigen::computeMatrixSqrt(A, S); bool fin = S.rows() == n && S.cols() == n && (n == 0 || S.array().isFinite().all());
    if (c.check(fin, "finite", "the square root of a large matrix is not finite or of another size")) c.check(relerr(A, MatrixXd(S * S.transpose())) < 1e-13 * (n + 1), "square", "large matrix: the square differs by " + vf::str(relerr(A, MatrixXd(S * S.transpose()))));
    if (n == 6) { Eigen::Matrix<double, 6, 6> A6 = A, S6; sm::eigen::computeMatrixSqrt(A6, S6); c.check(S6.array().isFinite().all() && relerr(A, MatrixXd(S6 * S6.transpose())) < 1e-12, "square", "fixed size 6"); }
  }
  for (int M : {1, 2, 7, 16, 17, 40}) for (int N : {4, 5, 8, 9, 16, 17, 33, 40}) for (int k = 0; k < 4; ++k) {
    if (!c.mine(i++)) continue;
    Poly p(M, N, k); VectorXd x(N); for (int j = 0; j < N; ++j) x[j] = ((j * 5 + k) % 7 - 3) * (k == 3 ? 100 : 0.5); c.cur("polynomial %d from %d to %d variables", k, N, M); MatrixXd J = p.J(x); VectorXd x0 = x; c.state("d" + vf::str(M) + "/" + vf::str(N) + "/" + vf::str(k)); c.eval(); c.transition(); c.trace();
    typedef sm::eigen::NumericalDiffFunctor<VectorXd, VectorXd> Fn; boost::function<VectorXd(VectorXd)> f = [&](const VectorXd& v) { return p.f(v); };
    for (double eps : {0.0, 1e-6, 1e-3}) {
      MatrixXd E = eps == 0.0 ? sm::eigen::NumericalDiff<Fn>(Fn(f)).estimateJacobian(x) : sm::eigen::NumericalDiff<Fn>(Fn(f), eps).estimateJacobian(x); double e = eps == 0.0 ? 1.4e-8 : eps;
      if (c.check(E.rows() == M && E.cols() == N, "shape", "wrong size for many variables")) c.check((E - J).cwiseAbs().maxCoeff() <= 1e-15 * p.mag(x) * N / e + 1e-15, "jacobian", "many variables: differs by " + vf::str((E - J).cwiseAbs().maxCoeff()));
      c.check(same(x, x0), "point", "the point is changed");
    }
  }
}
// results that depend on earlier calls
VF_PART(E02_calls, 2) {
  static std::vector<MatrixXd> A; static std::vector<std::string> nm;
  for (int d = 0; d <= 5; ++d) for (int k = 0; k < 7; ++k) { MatrixXd B(d, d); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) B(i, j) = k == 0 ? i == j : k == 1 ? 2 * (i == j) : k == 2 ? (i <= j) : k == 3 ? (i >= j) : k == 4 ? (i == 0) : k == 5 ? ((i * 3 + j) % 4 - 1) : (i + j == d - 1); A.push_back(B * B.transpose()); nm.push_back(vf::str(d) + "x" + vf::str(d) + ", pattern " + vf::str(k)); if (d == 0) break; }
  std::vector<vf::Pure> P; auto show = [](size_t i) { return nm[i]; };
  P.push_back({"computeMatrixSqrt", A.size(), [](size_t i) { MatrixXd S; sm::eigen::computeMatrixSqrt(A[i], S); return vf::bytes(S); }, show});
  P.push_back({"computeMatrixSqrt into one matrix", A.size(), [](size_t i) { static MatrixXd S; sm::eigen::computeMatrixSqrt(A[i], S); return vf::bytes(S); }, show});
  static std::vector<Eigen::Matrix3d> A3; for (auto& a : A) if (a.rows() == 3) for (double f : {1.0, 0.25, 4.0}) { A3.push_back(a * f); Eigen::Matrix3d b = a; b(0, 0) += f; A3.push_back(b); }
  P.push_back({"computeMatrixSqrt of fixed size", A3.size(), [](size_t i) { Eigen::Matrix3d S; sm::eigen::computeMatrixSqrt(A3[i], S); return vf::bytes(S); }, [](size_t i) { std::ostringstream o; o << A3[i].row(0) << ".."; return o.str(); }});
  static const double al[] = {0, 1.1, -2.5e4 / 3, 1e9 / 7}; auto point = [](size_t i) { VectorXd x(1 + i % 3); for (int k = 0; k < x.size(); ++k) x[k] = al[(i / 3 >> 2 * k) % 4]; return x; };
  typedef sm::eigen::NumericalDiffFunctor<VectorXd, VectorXd> Fn;
  for (double eps : {0.0, 1e-3}) P.push_back({"numericalDiff with step " + vf::str(eps), 96, [=](size_t i) { Poly p(1 + i / 48, 1 + i % 3, i % 2); std::function<VectorXd(const VectorXd&)> f = [&](const VectorXd& v) { return p.f(v); }; return vf::bytes(eps > 0 ? sm::eigen::numericalDiff(f, point(i % 48), eps) : sm::eigen::numericalDiff(f, point(i % 48))); }, [](size_t i) { return "point " + vf::str(i); }});
  // one estimator for many points
  static Poly p3(2, 3, 1); static sm::eigen::NumericalDiff<Fn> D3(Fn([](const VectorXd& v) { return p3.f(v); }));
  P.push_back({"one NumericalDiff", 64, [](size_t i) { VectorXd x(3); for (int k = 0; k < 3; ++k) x[k] = al[(i >> 2 * k) % 4]; return vf::bytes(D3.estimateJacobian(x)); }, [](size_t i) { return "point " + vf::str(i); }});
  vf::pure(c, P); c.sample("computeMatrixSqrt of 3x3, pattern 2 after 3x3, pattern 5");
}
