// E01 matrices in archives, E02 matrix square root, derivatives, finiteness.
#include "vf.hpp"
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <limits>
#include <sm/eigen/NumericalDiff.hpp>
#include <sm/eigen/assert_macros.hpp>
#include <sm/eigen/matrix_sqrt.hpp>
#include <sm/eigen/serialization.hpp>
using Eigen::Dynamic; using Eigen::Matrix; using Eigen::MatrixXd; using Eigen::VectorXd;
namespace {
template <class S> S val(int k) { static const double d[] = {0, 1.5, -2.25, 1e30, -1e-30, 0.1, 7, -128.0 / 3}; return (S)d[k % 8]; }
template <> int val<int>(int k) { static const int d[] = {0, 1, -1, 2147483647, -2147483647 - 1, 5}; return d[k % 6]; }
template <> unsigned val<unsigned>(int k) { static const unsigned d[] = {0, 1, 4294967295u, 77}; return d[k % 4]; }
template <> char val<char>(int k) { return (char)(k * 37 + 1); }
template <> bool val<bool>(int k) { return k % 3 == 1; }
template <class O, class T> std::string put(const T& t) { std::ostringstream s; { O a(s); a << boost::serialization::make_nvp("top", t); } return s.str(); }
template <class I, class T> void get(const std::string& d, T& t) { std::istringstream s(d); I a(s); a >> boost::serialization::make_nvp("top", t); }
template <class M> void fill(M& m, int k) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = val<typename M::Scalar>(k + 3 * i + j); }
template <class M, class N> bool same(const M& a, const N& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (!(a(i, j) == b(i, j))) return false; return true; }
// M saved, N loaded (same scalar and storage order): N must become equal to M, or refuse it
template <class O, class I, class M, class N> void trip(vf::Ctx& c, const char* fmt, int rows, int cols, int k, int pr, int pc) {
  M m; m.resize(rows, cols); fill(m, k); N n; bool fits = (N::RowsAtCompileTime == Dynamic || N::RowsAtCompileTime == rows) && (N::ColsAtCompileTime == Dynamic || N::ColsAtCompileTime == cols);
  n.resize(N::RowsAtCompileTime == Dynamic ? pr : N::RowsAtCompileTime, N::ColsAtCompileTime == Dynamic ? pc : N::ColsAtCompileTime); fill(n, k + 5); N before = n;
  c.cur("%s, %dx%d saved from %dx%d type, loaded into %dx%d type (-1: dynamic), holding %dx%d", fmt, rows, cols, (int)M::RowsAtCompileTime, (int)M::ColsAtCompileTime, (int)N::RowsAtCompileTime, (int)N::ColsAtCompileTime, pr, pc);
  std::string d = put<O>(m); bool threw = false; try { get<I>(d, n); } catch (const sm::eigen::SerializationException&) { threw = true; }
  if (fits) { c.check(!threw, "refused", "a matrix that fits is refused"); if (!threw) c.check(same(m, n), "content", "another matrix is loaded"); }
  else { c.check(threw, "size", "a matrix of another size is accepted"); c.check(same(n, before), "unchanged", "a refused matrix changed the target"); }
  // two matrices and a number after each other: nothing more or less is read than was written
  if (fits) { std::ostringstream s; int x = 4711 + k; { O a(s); const M cm = m; const int cx = x; a << boost::serialization::make_nvp("m", cm) << boost::serialization::make_nvp("x", cx) << boost::serialization::make_nvp("m2", cm); } N p, q; int y = 0; std::istringstream is(s.str()); I a(is); a >> boost::serialization::make_nvp("m", p) >> boost::serialization::make_nvp("x", y) >> boost::serialization::make_nvp("m2", q); c.check(same(p, m) && same(q, m) && x == y, "sequence", "what follows a matrix is not read back"); }
  c.eval(fits); c.state(std::string(c.sh ? fmt : "") + vf::str(rows) + "," + vf::str(cols) + "," + vf::str(M::RowsAtCompileTime) + "," + vf::str(M::ColsAtCompileTime) + "," + vf::str(N::RowsAtCompileTime) + "," + vf::str(N::ColsAtCompileTime) + vf::str(k)); c.transition(2); c.trace();
}
template <class M, class N> void fmts(vf::Ctx& c, int r, int co, int k, int pr, int pc) {
  trip<boost::archive::binary_oarchive, boost::archive::binary_iarchive, M, N>(c, "binary", r, co, k, pr, pc);
  trip<boost::archive::text_oarchive, boost::archive::text_iarchive, M, N>(c, "text", r, co, k, pr, pc);
  trip<boost::archive::xml_oarchive, boost::archive::xml_iarchive, M, N>(c, "xml", r, co, k, pr, pc);
}
template <class S, int R, int C, int R2, int C2> void kinds(vf::Ctx& c) {
  typedef Matrix<S, R, C> M; typedef Matrix<S, R2, C2> N;
  for (int r : {0, 1, 2, 3, 5}) for (int co : {0, 1, 2, 3}) {
    if ((R != Dynamic && r != R) || (C != Dynamic && co != C)) continue;
    for (int k = 0; k < 2; ++k) for (int p = 0; p < 3; ++p) fmts<M, N>(c, r, co, k, p == 0 ? 0 : p == 1 ? 4 : r, p == 0 ? 0 : p == 1 ? 1 : co);
  }
}
template <class S> void allkinds(vf::Ctx& c) {
  kinds<S, Dynamic, Dynamic, Dynamic, Dynamic>(c); kinds<S, Dynamic, Dynamic, Dynamic, 2>(c); kinds<S, Dynamic, Dynamic, 2, Dynamic>(c); kinds<S, Dynamic, Dynamic, 2, 2>(c); kinds<S, 3, 2, Dynamic, Dynamic>(c);
  kinds<S, Dynamic, 1, Dynamic, 1>(c); kinds<S, 1, Dynamic, 1, Dynamic>(c); kinds<S, Dynamic, 1, Dynamic, Dynamic>(c); kinds<S, 3, 3, 3, 3>(c); kinds<S, 2, 3, 3, 2>(c); kinds<S, 3, 1, 2, 1>(c); kinds<S, 1, 3, 1, 2>(c); kinds<S, 1, 1, 1, 1>(c);
}
template <class T> void transforms(vf::Ctx& c, const char* n) {
  for (int k = 0; k < 4; ++k) for (int f = 0; f < 3; ++f) {
    T a, b; b.matrix().setZero(); for (int i = 0; i < a.matrix().rows(); ++i) for (int j = 0; j < a.matrix().cols(); ++j) a.matrix()(i, j) = val<typename T::Scalar>(k + i * 5 + j);
    c.cur("%s %d, format %d", n, k, f);
    if (f == 0) get<boost::archive::binary_iarchive>(put<boost::archive::binary_oarchive>(a), b); else if (f == 1) get<boost::archive::text_iarchive>(put<boost::archive::text_oarchive>(a), b); else get<boost::archive::xml_iarchive>(put<boost::archive::xml_oarchive>(a), b);
    c.check(same(a.matrix(), b.matrix()), "content", "another transform is loaded"); c.eval(); c.transition(2); c.trace(); c.state(std::string(n) + vf::str(k) + vf::str(f));
  }
}
}
VF_PART(E01_double) { allkinds<double>(c); c.sample("text, 1x0 saved from 1x-1 type, loaded into 1x-1 type holding 1x1"); }
#ifndef LIGHT
VF_PART(E01_int) { allkinds<int>(c); }
#endif
VF_PART(E01_other_types) {
  kinds<float, Dynamic, Dynamic, Dynamic, Dynamic>(c); kinds<float, 2, 2, 2, 2>(c); kinds<unsigned, Dynamic, 1, Dynamic, 1>(c); kinds<char, Dynamic, Dynamic, Dynamic, Dynamic>(c); kinds<bool, Dynamic, Dynamic, Dynamic, Dynamic>(c);
  typedef Matrix<double, Dynamic, Dynamic, Eigen::RowMajor> RM; typedef Matrix<double, 2, 3, Eigen::RowMajor> R23;
  for (int r = 0; r < 4; ++r) for (int k = 0; k < 4; ++k) fmts<RM, RM>(c, r, k, 1, 2, 2);
  fmts<R23, R23>(c, 2, 3, 1, 0, 0); fmts<R23, RM>(c, 2, 3, 1, 0, 0); fmts<RM, R23>(c, 2, 3, 1, 0, 0);
  transforms<Eigen::Affine2d>(c, "Affine2d"); transforms<Eigen::Affine3f>(c, "Affine3f"); transforms<Eigen::AffineCompact3d>(c, "AffineCompact3d"); transforms<Eigen::Isometry3d>(c, "Isometry3d"); transforms<Eigen::Projective2d>(c, "Projective2d");
}
// sizes up to some hundreds, long and thin or square; several in one archive
VF_PART(E01_large, 4) {
  const int D[] = {1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 127, 128, 255, 256, 257, 300}; int i = 0;
  for (int r : D) for (int co : D) {
    if (r * co > 20000 || !c.mine(i++)) continue;
    fmts<MatrixXd, MatrixXd>(c, r, co, i, i % 3 == 0 ? 0 : i % 3 == 1 ? co : r, i % 3 == 0 ? 0 : i % 3 == 1 ? r : co); if (r == 1) fmts<Matrix<double, 1, Dynamic>, MatrixXd>(c, r, co, i, 3, 3); if (co == 1) fmts<VectorXd, VectorXd>(c, r, co, i, r / 2, 1);
    if (r * co < 1100) { typedef Matrix<double, Dynamic, Dynamic, Eigen::RowMajor> RM; fmts<RM, RM>(c, r, co, i, 2, 2); fmts<Matrix<int, Dynamic, Dynamic>, Matrix<int, Dynamic, Dynamic>>(c, r, co, i, co, r); fmts<Matrix<char, Dynamic, Dynamic>, Matrix<char, Dynamic, Dynamic>>(c, r, co, i, 1, 1); }
    if (r == 17) { fmts<Matrix<double, 17, Dynamic>, MatrixXd>(c, r, co, i, 1, 1); fmts<MatrixXd, Matrix<double, 17, Dynamic>>(c, r, co, i, 17, 4); fmts<MatrixXd, Matrix<double, 16, Dynamic>>(c, r, co, i, 16, 4); }
    if (r == 33 && co == 9) { fmts<Matrix<double, 33, 9>, MatrixXd>(c, r, co, i, 9, 33); fmts<MatrixXd, Matrix<double, 33, 9>>(c, r, co, i, 0, 0); fmts<MatrixXd, Matrix<double, 9, 33>>(c, r, co, i, 0, 0); }
  }
}
