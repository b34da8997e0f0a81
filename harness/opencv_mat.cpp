// O01 serialization and comparison of OpenCV matrices, over the stand-in in stubs/.
#include "vf.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <sm/opencv/serialization.hpp>
using cv::Mat;
namespace {
const int TYPES[] = {CV_8UC1, CV_8UC3, CV_16SC1, CV_32FC1, CV_32FC2, CV_64FC1, CV_64FC4, CV_MAKETYPE(CV_8U, 7)};
// every byte of the elements
std::string bytes(const Mat& m) { std::string s; for (int r = 0; r < m.rows && m.cols; ++r) s.append((const char*)m.ptr(r), m.cols * m.elemSize()); return s; }
void fill(Mat& m, int k) { for (int r = 0; r < m.rows && m.cols; ++r) for (size_t i = 0; i < m.cols * m.elemSize(); ++i) m.ptr(r)[i] = (uchar)(k * 37 + r * 101 + i * 13 + (i * r) % 7); }
// a matrix of this size: whole, a part of a larger one, its last row or a column of it
Mat make(int r, int c, int t, int how, int k) {
  if (how == 0 || !r || !c) { Mat m(r, c, t); fill(m, k); return m; }
  Mat p(r + (how == 1 ? 2 : 1), c + (how == 1 ? 3 : 1), t); fill(p, k + 1); Mat m = how == 1 ? p(cv::Rect(1, 1, c, r)) : how == 2 ? p(cv::Rect(1, 1, c, r)) : p(cv::Rect(0, 0, c, r)); return m;
}
const char* HOW[] = {"whole", "inner part", "last part", "first part"}; const char* FM[] = {"binary", "text", "xml"};
template <class T> void save(int f, std::ostream& o, const T& x, int n) { if (f == 0) { boost::archive::binary_oarchive a(o); for (int i = 0; i < n; ++i) a << boost::serialization::make_nvp("m", x); } else if (f == 1) { boost::archive::text_oarchive a(o); for (int i = 0; i < n; ++i) a << boost::serialization::make_nvp("m", x); } else { boost::archive::xml_oarchive a(o); for (int i = 0; i < n; ++i) a << boost::serialization::make_nvp("m", x); } }
template <class A, class T> void rd(A& a, T* x, int n, int& tail) { for (int i = 0; i < n; ++i) a >> boost::serialization::make_nvp("m", x[i]); a >> boost::serialization::make_nvp("tail", tail); }
template <class T> void load(int f, std::istream& s, T* x, int n, int& tail) { if (f == 0) { boost::archive::binary_iarchive a(s); rd(a, x, n, tail); } else if (f == 1) { boost::archive::text_iarchive a(s); rd(a, x, n, tail); } else { boost::archive::xml_iarchive a(s); rd(a, x, n, tail); } }
template <class A, class T> void wr(A& a, const T* x, int n) { for (int i = 0; i < n; ++i) a << boost::serialization::make_nvp("m", x[i]); const int tail = 4711; a << boost::serialization::make_nvp("tail", tail); }
template <class T> std::string store(int f, const T* x, int n) { std::ostringstream o; if (f == 0) { boost::archive::binary_oarchive a(o); wr(a, x, n); } else if (f == 1) { boost::archive::text_oarchive a(o); wr(a, x, n); } else { boost::archive::xml_oarchive a(o); wr(a, x, n); } return o.str(); }
bool same(const Mat& a, const Mat& b) { return a.rows == b.rows && a.cols == b.cols && a.type() == b.type() && bytes(a) == bytes(b); }
}
VF_PART(O01_round_trips, 8) {
  int n = c.thorough ? 6 : 4; uint64_t cnt = 0;
  for (int t : TYPES) for (int r = 0; r < n; ++r) for (int k = 0; k < n; ++k) for (int how = 0; how < 4; ++how) for (int f = 0; f < 3; ++f) {
    if (!c.mine(cnt++) || (how && (!r || !k))) continue;
    Mat m[2] = {make(r, k, t, how, 1), make(2, 1, CV_8UC3, 0, 5)}; std::string was = bytes(m[0]);
    // into an empty matrix, one of the same or another size, whole or parts
    for (int into = 0; into < 7; ++into) {
      c.cur("type %d, %dx%d, %s, %s, into kind %d", t, r, k, HOW[how], FM[f], into);
      std::string s = store(f, m, 2); c.check(bytes(m[0]) == was, "const", "saving changed the matrix");
      Mat d[2], around; if (into == 1) d[0] = make(r, k, t, 0, 9); if (into == 2) d[0] = make(r + 1, k + 2, t, 0, 9); if (into == 3) d[0] = make(r, k, CV_32FC2, 0, 9); if (into == 4) d[0] = make(r, k, t, 1, 9); if (into == 5) d[0] = make(r, k, t, 2, 9); if (into == 6) { around = Mat(r + 2, k + 2, t); fill(around, 3); if (r && k) d[0] = around(cv::Rect(1, 1, k, r)); }
      Mat other = into == 6 ? around.clone() : Mat(); int tail = 0; std::istringstream in(s); load(f, in, d, 2, tail);
      c.check(same(m[0], d[0]), "round-trip", "the matrix loaded is not the one saved"); c.check(same(m[1], d[1]) && tail == 4711, "following", "what follows in the archive is lost");
      if (into == 6) { bool ok = true; for (int y = 0; y < r + 2; ++y) for (int x = 0; x < k + 2; ++x) if (y < 1 || x < 1 || y > r || x > k) ok = ok && !memcmp(around.ptr(y) + x * around.elemSize(), other.ptr(y) + x * other.elemSize(), other.elemSize()); c.check(ok, "around", "loading into a part of a matrix changed the rest of it"); }
      c.check(sm::opencv::isBinaryEqual(m[0], d[0]), "equal", "the matrix loaded is not binary equal to the one saved");
      c.state(vf::str(t) + "," + vf::str(r) + "," + vf::str(k) + vf::str(how) + vf::str(f) + vf::str(into)); c.transition(2); c.trace(); c.eval(r * k);
    }
  }
  c.sample("CV_32FC2 2x3, inner part of a larger matrix, xml");
}
VF_PART(O01_equality, 4) {
  std::vector<Mat> ms; std::vector<std::string> what; int n = c.thorough ? 4 : 3;
  for (int t : TYPES) for (int r = 0; r < n; ++r) for (int k = 0; k < n; ++k) for (int how = 0; how < 3; ++how) for (int v = 0; v < 2; ++v) { if (how && (!r || !k)) continue; Mat m = make(r, k, t, how, 0); fill(m, v); ms.push_back(m); what.push_back("type " + vf::str(t) + ", " + vf::str(r) + "x" + vf::str(k) + ", " + HOW[how] + ", content " + vf::str(v)); }
  uint64_t cnt = 0;
  for (size_t i = 0; i < ms.size(); ++i) for (size_t j = 0; j < ms.size(); ++j) { if (!c.mine(cnt++)) continue; c.cur("%s and %s", what[i].c_str(), what[j].c_str()); c.check(sm::opencv::isBinaryEqual(ms[i], ms[j]) == same(ms[i], ms[j]), "equality", same(ms[i], ms[j]) ? "equal matrices are taken for different" : "different matrices are taken for equal"); c.eval(i != j); }
  // one byte changed, at each place
  for (size_t i = 0; i < ms.size(); ++i) { if (!c.mine(i)) continue; Mat m = ms[i].clone(); for (int r = 0; r < m.rows && m.cols; ++r) for (size_t b = 0; b < m.cols * m.elemSize(); ++b) for (int x : {1, 128}) { c.cur("%s, byte %zu of row %d changed", what[i].c_str(), b, r); m.ptr(r)[b] ^= x; c.check(!sm::opencv::isBinaryEqual(ms[i], m) && !sm::opencv::isBinaryEqual(m, ms[i]), "one-byte", "taken for equal"); m.ptr(r)[b] ^= x; c.eval(); c.state(what[i] + vf::str(r) + "," + vf::str(b)); c.transition(); } c.check(sm::opencv::isBinaryEqual(ms[i], m), "copy", "a copy is taken for different"); c.trace(); }
  c.sample("CV_8UC3 2x2, byte 5 of row 1 changed: different");
}
VF_PART(O01_points) {
  float fs[] = {0, -0.0f, 1.5f, -3.25e7f, 1e-30f, 3.4028235e38f}; int is[] = {0, -1, 7, 2147483647};
  for (int f = 0; f < 3; ++f) for (float x : fs) for (float y : fs) for (int i : is) for (int j : is) {
    c.cur("%s, key point %g %g, %d, %d", FM[f], x, y, i, j); cv::KeyPoint k[2]; k[0].pt = cv::Point2f(x, y); k[0].size = y; k[0].angle = x + 1; k[0].response = y * 0.5f; k[0].octave = i; k[0].class_id = j; k[1].octave = -5;
    std::string s = store(f, k, 2); int tail = 0;
    auto eq = [](const cv::KeyPoint& a, const cv::KeyPoint& b) { return !memcmp(&a.pt.x, &b.pt.x, 4) && !memcmp(&a.pt.y, &b.pt.y, 4) && !memcmp(&a.size, &b.size, 4) && !memcmp(&a.angle, &b.angle, 4) && !memcmp(&a.response, &b.response, 4) && a.octave == b.octave && a.class_id == b.class_id; };
    for (int prior = 0; prior < (f ? 4 : 7); ++prior) { std::istringstream in(s); cv::KeyPoint d[2]; if (prior) for (auto& q : d) { float z = prior == 1 ? 0 : prior == 2 ? -1 : prior == 3 ? 1e9f : prior == 4 ? x : std::nanf(""); q.pt = cv::Point2f(z, -z); q.size = q.angle = q.response = z; q.octave = q.class_id = prior == 1 ? 0 : prior == 2 ? -1 : prior == 3 ? 2147483647 : prior == 4 ? i : 3; } if (prior == 6) d[0] = d[1] = k[0]; tail = 0; load(f, in, d, 2, tail);
      c.check(eq(k[0], d[0]) && eq(k[1], d[1]) && tail == 4711, "key-point", "the key point loaded over another one (" + vf::str(prior) + ") is not the one saved"); c.transition(); }
    cv::Point2f p[1] = {cv::Point2f(y, x)}, q[1]; for (float z : {0.f, -1.f, x}) { q[0] = cv::Point2f(z, z); std::istringstream ip(store(f, p, 1)); load(f, ip, q, 1, tail); c.check(!memcmp(p, q, sizeof p), "point", "the point loaded is not the one saved"); } c.eval(); c.state(vf::str(f) + vf::str(x) + "," + vf::str(y) + "," + vf::str(i) + "," + vf::str(j)); c.transition(2); c.trace();
  }
  c.sample("xml, key point -0 3.4e38, octave -1");
}
