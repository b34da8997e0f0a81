// B01 objects in files, T05 time conversion of sm_boost.
#include "vf.hpp"
#include <boost/date_time/posix_time/posix_time.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/map.hpp>
#include <sm/boost/serialization.hpp>
#include <sm/boost/ptime.hpp>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <cerrno>
#include <limits>
static struct { bool on; long wleft, rleft; int chunk; } F;
static void arm(long w, long r, int chunk) { F.on = true; F.wleft = w; F.rleft = r; F.chunk = chunk; }
static void disarm() { F.on = false; }
extern "C" {
ssize_t write(int fd, const void* b, size_t n) {
  if (F.on && fd > 2) {
    if (F.wleft >= 0) { if (F.wleft == 0 && n) { errno = ENOSPC; return -1; } n = std::min(n, (size_t)F.wleft); F.wleft -= n; }
    if (F.chunk > 0 && n > (size_t)F.chunk) n = F.chunk;
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int k) {
  if (!F.on || fd <= 2) return syscall(SYS_writev, fd, v, k);
  for (int i = 0; i < k; ++i) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t read(int fd, void* b, size_t n) {
  if (F.on && fd > 2) {
    if (F.rleft >= 0) { if (F.rleft == 0 && n) { errno = EIO; return -1; } n = std::min(n, (size_t)F.rleft); }
    if (F.chunk > 0 && n > (size_t)F.chunk) n = F.chunk;
    ssize_t r = syscall(SYS_read, fd, b, n); if (r > 0 && F.rleft >= 0) F.rleft -= r; return r;
  }
  return syscall(SYS_read, fd, b, n);
}
}
// declared versions of class templates
template <class A> struct VT1 { enum { CLASS_SERIALIZATION_VERSION = 3 }; unsigned v; template <class R> void serialize(R& a, unsigned n) { v = n; } };
template <class A, class B> struct VT2 { enum { CLASS_SERIALIZATION_VERSION = 4 }; unsigned v; template <class R> void serialize(R& a, unsigned n) { v = n; } };
template <class A, class B, class C> struct VT3 { enum { CLASS_SERIALIZATION_VERSION = 5 }; unsigned v; template <class R> void serialize(R& a, unsigned n) { v = n; } };
template <class A, class B, class C, class D> struct VT4 { enum { CLASS_SERIALIZATION_VERSION = 6 }; unsigned v; template <class R> void serialize(R& a, unsigned n) { v = n; } };
template <int I> struct VI1 { enum { CLASS_SERIALIZATION_VERSION = 7 + I }; unsigned v; template <class R> void serialize(R& a, unsigned n) { v = n; } };
template <int I, class A> struct VI1T2 { enum { CLASS_SERIALIZATION_VERSION = 8 + I }; unsigned v; template <class R> void serialize(R& a, unsigned n) { v = n; } };
struct VT0 { enum { CLASS_SERIALIZATION_VERSION = 2 }; unsigned v; template <class R> void serialize(R& a, unsigned n) { v = n; } };
SM_BOOST_CLASS_VERSION(VT0); SM_BOOST_CLASS_VERSION_T1(VT1); SM_BOOST_CLASS_VERSION_T1T2(VT2); SM_BOOST_CLASS_VERSION_T1T2T3(VT3); SM_BOOST_CLASS_VERSION_T1T2T3T4(VT4); SM_BOOST_CLASS_VERSION_I1(VI1); SM_BOOST_CLASS_VERSION_I1T2(VI1T2);
namespace {
namespace bs = sm::boost_serialization;
struct Box { int x; explicit Box(int x = 0) : x(x) {} bool operator==(const Box& o) const { return x == o.x; } template <class A> void serialize(A& a, unsigned) { a & BOOST_SERIALIZATION_NVP(x); } };
struct Obj {
  int i; double d; std::string s; std::vector<double> v; boost::shared_ptr<Box> p, q; std::map<std::string, int> m; bool b; char ch; uint64_t u;
  Obj() : i(-99), d(-99), s("unset"), b(false), ch('z'), u(1) {}
  template <class A> void serialize(A& a, unsigned) { a & BOOST_SERIALIZATION_NVP(i) & BOOST_SERIALIZATION_NVP(d) & BOOST_SERIALIZATION_NVP(s) & BOOST_SERIALIZATION_NVP(v) & BOOST_SERIALIZATION_NVP(p) & BOOST_SERIALIZATION_NVP(q) & BOOST_SERIALIZATION_NVP(m) & BOOST_SERIALIZATION_NVP(b) & BOOST_SERIALIZATION_NVP(ch) & BOOST_SERIALIZATION_NVP(u); }
};
bool bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
bool same(const Obj& a, const Obj& b) {
  if (!(a.i == b.i && bits(a.d, b.d) && a.s == b.s && a.v.size() == b.v.size() && a.m == b.m && a.b == b.b && a.ch == b.ch && a.u == b.u)) return false;
  for (size_t k = 0; k < a.v.size(); ++k) if (!bits(a.v[k], b.v[k])) return false;
  return !a.p == !b.p && !a.q == !b.q && (a.p == a.q) == (b.p == b.q) && (!a.p || *a.p == *b.p) && (!a.q || *a.q == *b.q);
}
const char* FM[] = {"binary", "text", "xml", "xml with tag"};
void put(int f, Obj& o, const std::string& n, const std::string& tag = "top") { f == 0 ? bs::save(o, n) : f == 1 ? bs::save_txt(o, n) : f == 2 ? bs::save_xml(o, n) : bs::save_xml(o, tag, n); }
void get(int f, Obj& o, const std::string& n, const std::string& tag = "top") { f == 0 ? bs::load(o, n) : f == 1 ? bs::load_txt(o, n) : f == 2 ? bs::load_xml(o, n) : bs::load_xml(o, tag, n); }
// an exception derived from std::exception, as documented for boost archives and SM assertions
template <class G> int throws(vf::Ctx& c, G g) { try { g(); } catch (const std::exception&) { return 1; } catch (...) { c.failpl("exception", "throws something that is no exception"); return 1; } return 0; }
std::string slurp(const std::string& f) { std::string s; FILE* i = fopen(f.c_str(), "rb"); if (!i) return "<none>"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, i)) > 0) s.append(b, n); fclose(i); return s; }
void spit(const std::string& f, const std::string& s) { FILE* o = fopen(f.c_str(), "wb"); fwrite(s.data(), 1, s.size(), o); fclose(o); }
std::vector<Obj> objs(bool thorough) {
  std::vector<Obj> r; std::vector<std::string> ss = {"", "a b", "<&>\"'", "line\nline", std::string("nul\0x", 5), "  lead trail  ", "\xc3\xa9"};
  std::vector<double> ds = {0.0, -0.0, 1.0 / 3, -1e300, 5e-324, 123456789.123456789, 2.2250738585072014e-308, 1.7976931348623157e308};
  int n = 0;
  for (auto& s : ss) for (double d : ds) for (int sh = 0; sh < 4; ++sh) {
    Obj o; o.s = s; o.d = d; o.i = n * 7919 - 2000; o.b = n & 1; o.ch = "aZ09"[n & 3]; o.u = ~0ull - n; ++n;
    for (int k = 0; k < n % 4; ++k) o.v.push_back(d + k); if (n % 3) o.m[s.find('\0') == std::string::npos ? s : "k"] = n; if (n % 5 == 0) o.m["<x>"] = -1;
    if (sh & 1) o.p.reset(new Box(n)); if (sh & 2) o.q = sh == 3 && n % 2 ? o.p : boost::shared_ptr<Box>(new Box(-n));
    r.push_back(o);
  }
  return r;
}
// boost's xml format cannot hold a NUL character
bool holds(int f, const Obj& o) { return f < 2 || o.s.find('\0') == std::string::npos; }
}
VF_PART(B01_round_trips, 8) {
  std::vector<Obj> os = objs(c.thorough); std::string f = c.scratch() + "/o"; uint64_t n = 0;
  for (size_t k = 0; k < os.size(); ++k) for (int m = 0; m < 4; ++m) {
    if (!holds(m, os[k])) continue;
    // saved over nothing, over a longer and over a shorter file
    for (int prev = 0; prev < 3; ++prev) {
      if (!c.mine(n++)) continue;
      c.cur("%s, object %zu, %s", FM[m], k, prev == 0 ? "new file" : prev == 1 ? "over a longer file" : "over a shorter file");
      unlink(f.c_str()); if (prev == 1) spit(f, std::string(20000, '<')); if (prev == 2) spit(f, "x");
      Obj o = os[k], r; put(m, o, f, k % 3 ? "top" : ""); c.check(same(o, os[k]), "const", "saving changed the object");
      if (k % 2) for (int j = 0; j < 3; ++j) r.v.push_back(j), r.m["old"] = j;
      if (prev) { std::string now = slurp(f); unlink(f.c_str()); put(m, o, f, k % 3 ? "top" : ""); c.check(now == slurp(f), "old-content", "the file differs from one saved to a new file"); }
      get(m, r, f, k % 3 ? "top" : ""); c.check(same(o, r), "round-trip", "the object loaded is not the one saved");
      if (m > 1) { std::string tag = m == 3 && k % 3 ? "top" : "object"; c.check(slurp(f).find("\n<" + tag + " ") != std::string::npos, "tag", "the object is not stored as " + tag); }
      if (m == 3 && k % 3 == 0) { Obj q; get(2, q, f); c.check(same(o, q), "default-tag", "an empty tag is not the default tag"); }
      c.state(std::string(FM[m]) + vf::str(k)); c.transition(2); c.trace();
    }
  }
  Obj o; c.cur("unreadable and unwritable files");
  for (int m = 0; m < 4; ++m) for (std::string p : {c.scratch() + "/absent", c.scratch() + "/no/dir", c.scratch(), std::string("")}) {
    c.cur("%s, file '%s'", FM[m], p.c_str());
    c.check(throws(c, [&] { get(m, o, p); }), "missing", "loading from a file that is not there does not throw");
    if (p != c.scratch() + "/absent") c.check(throws(c, [&] { put(m, o, p); }), "unwritable", "saving to a place that cannot be written does not throw");
  }
  c.cur("class versions"); 
  VT0 t0; VT1<int> t1; VT2<int, char> t2; VT3<int, int, int> t3; VT4<int, int, int, int> t4; VI1<5> i1; VI1T2<6, int> i2; std::stringstream ss;
  { boost::archive::text_oarchive a(ss); const VT0 c0 = t0; const VT1<int> c1 = t1; const VT2<int, char> c2 = t2; const VT3<int, int, int> c3 = t3; const VT4<int, int, int, int> c4 = t4; const VI1<5> ci = i1; const VI1T2<6, int> cj = i2; a << c0 << c1 << c2 << c3 << c4 << ci << cj; }
  { boost::archive::text_iarchive a(ss); a >> t0 >> t1 >> t2 >> t3 >> t4 >> i1 >> i2; }
  c.check(t0.v == 2 && t1.v == 3 && t2.v == 4 && t3.v == 5 && t4.v == 6 && i1.v == 12 && i2.v == 14, "version", "a class is stored with another version than declared");
  c.sample("xml, object with <&>\"' over a longer file");
}
namespace { Obj ref(bool big) { Obj o; o.i = 12345; o.d = 0.1; o.s = "some text"; o.v = {1.5, -2.25, 1e10}; o.p.reset(new Box(7)); o.q = o.p; o.m["k"] = 3; o.b = true; o.ch = 'c'; o.u = 77; if (big) for (int i = 0; i < 3000; ++i) o.v.push_back(i + 0.5); return o; } }
VF_PART(B01_write_faults, 8) {
  std::string f = c.scratch() + "/w";
  for (int big = 0; big < 2; ++big) for (int m = 0; m < 4; ++m) {
    Obj o = ref(big); unlink(f.c_str()); put(m, o, f); std::string good = slurp(f); long full = good.size();
    for (long k = 0; k <= full + 1; k += big ? (c.thorough ? 211 : 1009) : 1) {
      if (!c.mine(k)) continue;
      c.cur("%s, device full after %ld of %ld bytes", FM[m], k, full); unlink(f.c_str());
      arm(k, -1, 0); int t = throws(c, [&] { put(m, o, f); }); disarm();
      if (k < full) c.check(t, "silent-write-failure", "no error although only " + vf::str(slurp(f).size()) + " of " + vf::str(full) + " bytes were written");
      else c.check(!t && slurp(f) == good, "false-error", "a save that fits fails");
      c.eval(k < full); c.state(std::string(FM[m]) + vf::str(big) + "," + vf::str(k)); c.transition(); c.trace();
    }
    if (c.mine(0)) for (int chunk : {1, 3, 100}) { c.cur("%s, short writes and reads of %d bytes", FM[m], chunk); unlink(f.c_str()); arm(-1, -1, chunk); Obj r; int t = throws(c, [&] { put(m, o, f); get(m, r, f); }); disarm(); c.check(!t && slurp(f) == good && same(o, r), "short-io", "short writes or reads damage the object"); c.eval(); c.trace(); }
  }
  c.sample("xml, device full after 10 bytes: exception");
}
VF_PART(B01_read_faults, 8) {
  std::string f = c.scratch() + "/r", g = c.scratch() + "/t";
  for (int big = 0; big < 2; ++big) for (int m = 0; m < 4; ++m) {
    if (m == 1) continue;  // a text archive has no end mark: its last number may be cut unnoticed
    Obj o = ref(big); put(m, o, f); std::string good = slurp(f); long full = good.size();
    for (long k = 0; k < full; k += big ? (c.thorough ? 211 : 1009) : 1) for (int how = 0; how < 2; ++how) {
      if (!c.mine(k)) continue;
      c.cur("%s, %s after %ld of %ld bytes", FM[m], how ? "read error" : "file ends", k, full); Obj r; int t;
      if (how) { arm(-1, k, 0); t = throws(c, [&] { get(m, r, f); }); disarm(); } else { spit(g, good.substr(0, k)); t = throws(c, [&] { get(m, r, g); }); }
      if (!t) c.check(same(o, r), "silent-read-failure", "another object is loaded without an error");
      c.eval(t); c.state(std::string(FM[m]) + vf::str(big) + vf::str(how) + "," + vf::str(k)); c.transition(); c.trace();
    }
  }
  c.sample("binary, file ends after 50 bytes: exception");
}
VF_PART(T05_timeval) {
  using namespace boost::posix_time; using boost::gregorian::date;
  ptime ep(date(1970, 1, 1)); std::vector<int64_t> us; 
  for (int64_t s : {0LL, 1LL, 59LL, 60LL, 86399LL, 86400LL, 951782400LL, 1353320000LL, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 9000000000LL}) for (int64_t sg : {1, -1}) for (int64_t u : {0LL, 1LL, 999LL, 1000LL, 499999LL, 500000LL, 500001LL, 999000LL, 999999LL}) { us.push_back(sg * s * 1000000 + u); us.push_back(sg * s * 1000000 - u); }
  for (int64_t x : us) {
    ptime t = ep + microseconds(x); c.cur("%lld us", (long long)x); timeval v = sm::ptimeToTimeval(t);
    c.check(v.tv_usec >= 0 && v.tv_usec < 1000000, "normal", "microseconds " + vf::str(v.tv_usec));
    c.check((__int128)v.tv_sec * 1000000 + v.tv_usec == x, "value", "gives " + vf::str(v.tv_sec) + " s " + vf::str(v.tv_usec) + " us"); c.eval(x != 0);
  }
  c.sample("-1 us: -1 s 999999 us");
}
