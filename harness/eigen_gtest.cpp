// E03 the matrix comparisons for tests.
#include "vf.hpp"
#include <gtest/gtest-spi.h>
#include <Eigen/Eigenvalues>
#include <limits>
#include <sm/eigen/gtest.hpp>
namespace {
const double NaN = std::numeric_limits<double>::quiet_NaN(), Inf = std::numeric_limits<double>::infinity();
// the failures g reports
template <class G> std::vector<testing::TestPartResult> failures(G g) {
  testing::TestPartResultArray a; 
  { testing::ScopedFakeTestPartResultReporter rep(testing::ScopedFakeTestPartResultReporter::INTERCEPT_ONLY_CURRENT_THREAD, &a); g(); }
  std::vector<testing::TestPartResult> r; for (int i = 0; i < a.size(); ++i) if (a.GetTestPartResult(i).failed()) r.push_back(a.GetTestPartResult(i));
  return r;
}
bool has(const testing::TestPartResult& p, const std::string& s) { return std::string(p.message()).find(s) != std::string::npos; }
typedef std::vector<std::pair<int, int>> Diffs;
// One comparison: the elements that differ in reading order, and what was reported.
void judge(vf::Ctx& c, const char* what, bool sizes, const Diffs& d, const std::vector<testing::TestPartResult>& f, bool all, bool msg, bool pos = true) {
  c.eval(!sizes || !d.empty());
  if (sizes && d.empty()) { c.check(f.empty(), std::string(what) + "-false-failure", "a failure is reported: " + (f.empty() ? "" : std::string(f[0].message()).substr(0, 200))); return; }
  if (!c.check(!f.empty(), std::string(what) + "-missed", sizes ? "no failure is reported for element (" + vf::str(d[0].first) + "," + vf::str(d[0].second) + ")" : "no failure is reported for different sizes")) return;
  for (auto& p : f) {
    if (msg) c.check(has(p, "user <message> 7"), std::string(what) + "-message", "the failure does not show the message");
    if (pos) c.check(has(p, "some_file.cpp:4321: some_function()"), std::string(what) + "-position", "the failure does not show the caller's position");
    c.check(p.fatally_failed() == !all, std::string(what) + "-kind", all ? "the failure is fatal" : "the failure is not fatal");
  }
  if (!sizes) return;
  c.check(f.size() == (all ? d.size() : 1), std::string(what) + "-count", vf::str(f.size()) + " failures for " + vf::str(d.size()) + " different elements");
  for (size_t k = 0; k < f.size() && k < d.size(); ++k)
    c.check(has(f[k], "(" + vf::str(d[k].first) + "," + vf::str(d[k].second) + ")"), std::string(what) + "-element", "the failure does not name element (" + vf::str(d[k].first) + "," + vf::str(d[k].second) + "): " + std::string(f[k].message()).substr(0, 200));
}
const sm::source_file_pos POS("some_function", "some_file.cpp", 4321);
const std::string MSG = "user <message> 7";
bool near(double a, double b, double t) { return std::fabs(a - b) <= t; }
// is b within p percent of a: 1, 0, or -1 too close to call
int relative(double a, double b, double p) {
  if (std::isnan(a) || std::isnan(b)) return 0;
  if (a == b) return 1;
  double fa = std::fabs(a), fb = std::fabs(b);
  if (std::isinf(a) || std::isinf(b)) return 0;
  if ((fa < 1e-15 && fb < 1e-15) || (fa == 0 && fb < 1e-6) || (fb == 0 && fa < 1e-6)) return 1;
  long double d = std::fabs((long double)a - b) / std::max(fa, fb), t = (long double)p / 100;
  if (std::fabs(d - t) <= 1e-13L * std::max(d, t)) return -1;
  return d <= t;
}
// as a test would use it, with variables of the names a test may have
void macro(const Eigen::MatrixXd& r, const Eigen::MatrixXd& c, double percentError) { ASSERT_DOUBLE_MX_EQ(r, c, percentError, MSG); }
void macroExpr(const Eigen::MatrixXd& i, const Eigen::MatrixXd& j, double e) { ASSERT_DOUBLE_MX_EQ((i + i), (j * 2.0), e, MSG << "!"); }
template <class A, class B> void three(vf::Ctx& c, const A& a, const B& b, double t) {
  bool sizes = a.rows() == b.rows() && a.cols() == b.cols(); Diffs eq, ne;
  if (sizes) for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) {
    if (!(a(i, j) == b(i, j))) eq.push_back({i, j});
    if (!near(a(i, j), b(i, j), t)) ne.push_back({i, j});
  }
  judge(c, "assertEqual", sizes, eq, failures([&] { sm::eigen::assertEqual(a, b, POS, MSG); }), false, true);
  judge(c, "assertNear", sizes, ne, failures([&] { sm::eigen::assertNear(a, b, t, POS, MSG); }), false, true);
  judge(c, "expectNear", sizes, ne, failures([&] { sm::eigen::expectNear(a, b, t, POS, MSG); }), true, true);
  c.state(vf::hash(vf::str(a.rows()) + "x" + vf::str(a.cols()) + "," + vf::str(b.rows()) + "x" + vf::str(b.cols()) + vf::str(t) + vf::str(a.size()) + vf::str(eq.size()) + vf::str(ne.size())));
}
Eigen::MatrixXd filled(int r, int c) { Eigen::MatrixXd m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = 1 + 10 * i + j; return m; }
}
VF_PART(E03_sizes) {
  int n = c.thorough ? 5 : 4;
  for (int r = 0; r < n; ++r) for (int k = 0; k < n; ++k) for (int s = 0; s < n; ++s) for (int l = 0; l < n; ++l) {
    c.cur("%dx%d and %dx%d", r, k, s, l); Eigen::MatrixXd a = filled(r, k), b = filled(s, l);
    three(c, a, b, 0.5);
    Diffs none; judge(c, "ASSERT_DOUBLE_MX_EQ", r == s && k == l, none, failures([&] { macro(a, b, 1.0); }), false, true, false);
    if (r == s && k == l) { Eigen::Matrix<int, -1, -1, Eigen::RowMajor> ai = a.cast<int>(); three(c, ai, b.cast<int>().eval(), 0.5); three(c, a, b.transpose().eval().transpose(), 0.5); }
  }
  // positions without a message
  Eigen::Matrix3d a = Eigen::Matrix3d::Zero(); Eigen::Matrix3d b = a; b(2, 1) = 1; c.cur("no message");
  judge(c, "assertEqual", true, Diffs{{2, 1}}, failures([&] { sm::eigen::assertEqual(a, b, POS); }), false, false);
  judge(c, "assertNear", true, Diffs{{2, 1}}, failures([&] { sm::eigen::assertNear(a, b, 1e-3, POS); }), false, false);
  judge(c, "expectNear", true, Diffs{{2, 1}}, failures([&] { sm::eigen::expectNear(a, b, 1e-3, POS); }), true, false);
  c.sample("2x3 and 3x2: failures, nothing read");
}
// every subset of differing elements of matrices up to 3 x 3
VF_PART(E03_patterns, 4) {
  int cnt = 0;
  for (int r = 1; r <= 3; ++r) for (int k = 1; k <= 3; ++k) for (int m = 0; m < (1 << (r * k)); ++m) {
    if (!c.mine(cnt++)) continue;
    Eigen::MatrixXd a = filled(r, k), b = a; for (int i = 0; i < r * k; ++i) if (m >> i & 1) b(i / k, i % k) += i % 2 ? 0.25 : -1e-3;
    c.cur("%dx%d, differing elements %x", r, k, m);
    for (double t : {0.0, 1e-2, 1.0}) three(c, a, b, t);
    Diffs d; for (int i = 0; i < r * k; ++i) if (m >> i & 1 && relative(a(i / k, i % k), b(i / k, i % k), 1) == 0) d.push_back({i / k, i % k});
    judge(c, "ASSERT_DOUBLE_MX_EQ", true, d, failures([&] { macro(a, b, 1.0); }), false, true, false);
    judge(c, "ASSERT_DOUBLE_MX_EQ", true, d, failures([&] { macroExpr(a, b, 1.0); }), false, true, false);
    // not finite at those places
    for (double bad : {NaN, Inf, -Inf}) {
      Eigen::MatrixXd f = a; d.clear(); for (int i = 0; i < r * k; ++i) if (m >> i & 1) f(i / k, i % k) = bad, d.push_back({i / k, i % k});
      judge(c, "assertFinite", true, d, failures([&] { sm::eigen::assertFinite(f, POS, MSG); }), false, true);
      judge(c, "assertFinite", true, d, failures([&] { sm::eigen::assertFinite(f, POS); }), false, false);
    }
  }
  c.sample("3x3, elements 0 and 5 differ: expectNear reports both");
}
VF_PART(E03_values) {
  std::vector<double> v = {0, -0.0, 1, -1, 1 + 1e-16, 1 + 4.5e-16, 1.001, 1.0100001, 1.02, 2, -2, 1e-16, 9e-16, 1.1e-15, -1e-16, 1e-7, 9.9e-7, 1.1e-6, -1e-7, 1e-300, 1e300, 1.7e308, -1.7e308, 5e-324, NaN, Inf, -Inf};
  for (double a : v) for (double b : v) {
    Eigen::Matrix<double, 1, 2> A(5, a), B(5, b);
    for (double t : {0.0, 1e-15, 1e-6, 0.5, 3.0}) {
      if (a == b && std::isinf(a)) continue;  // the difference is not a number: googletest's to say
      c.cur("%g and %g, tolerance %g", a, b, t); three(c, A, B, t);
    }
    for (double p : {0.0, 1e-10, 0.05, 1.0, 50.0, 100.0, 199.0, 200.0, 1000.0}) {
      int e = relative(a, b, p); if (e < 0 || (p > 100 && std::isinf(a - b) && !std::isinf(a) && !std::isinf(b))) continue;  // too close to call, or the difference overflows
      c.cur("%g and %g, %g percent", a, b, p); double err = -7; bool got = sm::eigen::compareRelative(a, b, p, &err);
      c.check(got == e, "compareRelative", got ? "are taken for equal" : "are taken for different"); c.check(sm::eigen::compareRelative(a, b, p) == got, "compareRelative-error", "depends on whether the error is asked for");
      if (!got) { double x = std::fabs(a - b) / std::max(std::fabs(a), std::fabs(b)) * 100; c.check(std::isnan(x) ? std::isnan(err) : x == err || std::fabs(err - x) <= 1e-9 * x, "percent-error", "the error is given as " + vf::str(err) + "%, it is " + vf::str(x) + "%"); }
      Diffs d; if (!e) d.push_back({0, 1});
      judge(c, "ASSERT_DOUBLE_MX_EQ", true, d, failures([&] { macro(A, B, p); }), false, true, false);
      c.state(vf::str(a) + "," + vf::str(b) + "," + vf::str(p)); c.transition(2); c.trace();
    }
  }
  c.sample("NaN and 1, 1000 percent: different");
}
namespace {
template <class M> void covariance(vf::Ctx& c, const M& m, int n) {
  c.check(m.rows() == n && m.cols() == n, "covariance-size", "wrong size"); c.eval();
  if (n == 0) return;
  double asym = (m - m.transpose()).cwiseAbs().maxCoeff(); c.check(asym <= 1e-13 * m.cwiseAbs().maxCoeff(), "symmetric", "not symmetric by " + vf::str(asym));
  Eigen::MatrixXd s = 0.5 * (m + m.transpose()); double l = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(s).eigenvalues().minCoeff();
  c.check(l > 0, "positive-definite", "smallest eigenvalue " + vf::str(l));
}
template <int N> void cov(vf::Ctx& c, int seed) {
  c.cur("randomCovariance<%d>, seed %d", N, seed); srand(seed); Eigen::Matrix<double, N, N> a = sm::eigen::randomCovariance<N>(), b = sm::eigen::randomCovariance<N>();
  covariance(c, a, N); covariance(c, b, N); c.check(a != b, "random", "two matrices are the same");
  c.cur("randomCovarianceXd(%d), seed %d", N, seed); srand(seed); Eigen::MatrixXd x = sm::eigen::randomCovarianceXd(N), y = sm::eigen::randomCovarianceXd(N);
  covariance(c, x, N); covariance(c, y, N); c.check(x != y, "random", "two matrices are the same"); c.state(vf::str(N) + "," + vf::str(seed)); c.transition(4); c.trace();
}
}
VF_PART(E03_covariances) {
  for (int s = 0; s < (c.thorough ? 2000 : 100); ++s) { cov<1>(c, s); cov<2>(c, s); cov<3>(c, s); cov<4>(c, s); cov<6>(c, s); cov<9>(c, s); }
  c.cur("randomCovarianceXd(0)"); covariance(c, sm::eigen::randomCovarianceXd(0), 0);
  c.sample("randomCovariance<6>: symmetric, eigenvalues positive");
}
// large matrices: nothing, one element, a row, a column or everything differs; other sizes
VF_PART(E03_large, 4) {
  int i = 0; const int D[] = {1, 2, 8, 9, 16, 17, 31, 33, 64, 100, 101};
  for (int r : D) for (int k : D) {
    if (r * k > 520 || !c.mine(i++)) continue;
    for (int w = 0; w < 8; ++w) {
      Eigen::MatrixXd a = filled(r, k), b = a; c.cur("%dx%d, pattern %d", r, k, w); c.state(vf::str(r) + "x" + vf::str(k) + "/" + vf::str(w)); c.transition(); c.trace();
      if (w == 1) b(0, 0) += 0.25; else if (w == 2) b(r - 1, k - 1) += 0.25; else if (w == 3) b(r / 2, k / 2) += 0.25; else if (w == 4) b.row(r - 1).array() += 0.25; else if (w == 5) b.col(k - 1).array() -= 0.25; else if (w == 6) b = a.array() + 0.125; else if (w == 7) b(r - 1, 0) = NaN;
      for (double t : {0.0, 0.2, 1.0}) three(c, a, b, t);
      Diffs d, f; for (int x = 0; x < r; ++x) for (int y = 0; y < k; ++y) { if (relative(a(x, y), b(x, y), 1e-4) == 0) d.push_back({x, y}); if (!std::isfinite(b(x, y))) f.push_back({x, y}); }
      judge(c, "ASSERT_DOUBLE_MX_EQ", true, d, failures([&] { macro(a, b, 1e-4); }), false, true, false); judge(c, "assertFinite", true, f, failures([&] { sm::eigen::assertFinite(b, POS, MSG); }), false, true);
    }
    if (r != k) { c.cur("%dx%d and its transpose", r, k); three(c, filled(r, k), filled(k, r), 0.5); } { c.cur("%dx%d and one row more", r, k); three(c, filled(r, k), filled(r + 1, k), 0.5); c.cur("%dx%d and one column less", r, k); three(c, filled(r, k), filled(r, k - 1), 0.5); }
  }
}
