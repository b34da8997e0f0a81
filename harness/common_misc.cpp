// C06 progress display, aligned allocation, source positions.
#include "vf.hpp"
#define EIGEN_MAX_ALIGN_BYTES 64
#define EIGEN_MAX_STATIC_ALIGN_BYTES 64
#include <deque>
#include <iomanip>
#include <iostream>
#include <list>
#include <sm/aligned_allocation.h>
#include <sm/boost/null_deleter.hpp>
#include <sm/eigen/traits.hpp>
#include <sm/progress_info.hpp>
#include <sm/source_file_pos.hpp>
#include <boost/shared_ptr.hpp>
namespace {
struct Cap { std::ostringstream o; std::streambuf* b; Cap() : b(std::cout.rdbuf(o.rdbuf())) {} ~Cap() { std::cout.rdbuf(b); } };
struct State { std::ios::fmtflags f; std::streamsize p, w; char c; bool operator==(const State& o) const { return f == o.f && p == o.p && w == o.w && c == o.c; } };
State state() { State s = {std::cout.flags(), std::cout.precision(), std::cout.width(), std::cout.fill()}; return s; }
// what was shown, for a share p of the work
void shown(vf::Ctx& c, const std::string& t, double p) {
  if (!c.check(!t.empty() && t[0] == '\r', "same-line", "does not return to the start of the line: " + vf::quote(t))) return;
  if (p >= 1) { c.check(t.find("Complete!") != std::string::npos && t[t.size() - 1] == '\n' && t.find('%') == std::string::npos, "complete", "shows " + vf::quote(t)); c.check(std::count(t.begin(), t.end(), '\n') == 1, "line", "not one line"); return; }
  char* e; double x = strtod(t.c_str() + 1, &e); std::string rest(e);
  c.check(e != t.c_str() + 1 && rest.compare(0, 10, "% complete") == 0 && t.find('\n') == std::string::npos, "text", "shows " + vf::quote(t));
  c.check(std::fabs(x - 100 * p) <= 0.005 + 1e-9, "percentage", "shows " + vf::quote(t)); size_t dot = t.find('.'); c.check(dot != std::string::npos && dot + 3 == t.find('%'), "digits", "not two digits: " + vf::quote(t));
}
template <class G> int run(vf::Ctx& c, G g, std::string& out) { Cap k; int r = 0; try { g(); } catch (const std::runtime_error&) { r = 1; } catch (...) { c.failpl("exception", "throws something else"); r = 1; } out = k.o.str(); return r; }
template <class A, class B> void ratio(vf::Ctx& c, A done, B all, int fmt) {
  c.cur("%s of %s, stream format %d", vf::str(+done).c_str(), vf::str(+all).c_str(), fmt);
  std::ios old(NULL); old.copyfmt(std::cout);
  if (fmt == 1) std::cout << std::scientific << std::setprecision(9) << std::setfill('*') << std::showpos; if (fmt == 2) std::cout << std::hex << std::setprecision(0) << std::left << std::noshowpoint << std::uppercase;
  if (fmt == 3) std::cout.setf(std::ios::boolalpha | std::ios::showpoint | std::ios::fixed), std::cout.precision(17);
  State s = state(); std::string out; bool bad = all <= B(0) || double(done) < 0 || double(done) > double(all); int t = run(c, [&] { sm::showProgress(done, all); }, out); State e = state();
  c.check(t == bad, bad ? "accepted" : "refused", bad ? "no exception for such progress" : "an exception for possible progress");
  if (bad) c.check(out.empty(), "output", "shows " + vf::quote(out)); else shown(c, out, double(done) / double(all));
  c.check(s == e, "stream-state", "the format of std::cout is changed"); std::cout.copyfmt(old);
  c.eval(!bad); c.state(vf::str(+done) + "/" + vf::str(+all) + "/" + vf::str(fmt)); c.transition();
}
}
VF_PART(C06_progress) {
  int n = c.thorough ? 300 : 60;
  for (int a = -2; a <= n; ++a) for (int d = -1; d <= (a < 0 ? 1 : a + 1); ++d) for (int f = 0; f < 4; ++f) {
    ratio(c, d, a, f); ratio(c, (double)d, (double)a, f); if (d >= 0 && a >= 0) ratio(c, (size_t)d, (unsigned)a, f), ratio(c, d, (size_t)a, f); if (f == 0) ratio(c, d * (int64_t(1) << 40), a * (int64_t(1) << 40), f), ratio(c, (unsigned char)d % 256, (float)a, f);
  }
  // counts and totals of different types, one beyond the range or the resolution of the other
  for (int d = 0; d <= 5; ++d) for (double b : {2.5, 3.75, 0.5, 1e12, 5e-3}) ratio(c, d, b, 0), ratio(c, d, (float)b, 0), ratio(c, (signed char)d, b, 0), ratio(c, (size_t)d, b, 0);
  for (double d : {0.25, 1.75, 2.9, 4.5}) for (int b : {-1, 0, 1, 3, 5, 127, 1000}) ratio(c, d, b, 0), ratio(c, (float)d, b, 0), ratio(c, d, (signed char)(b % 128), 0), ratio(c, d, (size_t)(b < 0 ? 0 : b), 0), ratio(c, d, (float)b, 0);
  for (int d : {0, 1, 100, 127}) for (int64_t b : {int64_t(127), int64_t(128), int64_t(255), int64_t(256), int64_t(65536), int64_t(5000000000), int64_t(1) << 62}) ratio(c, (signed char)d, b, 0), ratio(c, (unsigned char)d, b, 0), ratio(c, (short)d, b, 0), ratio(c, d, b, 0), ratio(c, (unsigned)d, (uint64_t)b, 0);
  for (int64_t d : {int64_t(256), int64_t(4294967295), int64_t(4294967297)}) for (int b : {1, 100, 255, 2147483647}) ratio(c, d, b, 0), ratio(c, d, (double)b, 0), ratio(c, (uint64_t)d, (short)b, 0), ratio(c, d, 1e10, 0);
  for (double p : {0.0, -0.0, 5e-324, 1e-9, 0.00004, 0.00006, 0.3333333, 0.5, 0.99994, 0.99996, 1 - 1e-16, 1.0, 1 + 3e-16, 1.5, 1e300, -1e-300, -0.1, HUGE_VAL, -HUGE_VAL, std::nan("")}) for (int f = 0; f < 2; ++f) {
    c.cur("progress %g", p); std::string o; State s = state(); bool bad = !(p >= 0 && p <= 1); int t = run(c, [&] { sm::showProgress(p); }, o); c.check(s == state(), "stream-state", "the format of std::cout is changed");
    c.check(t == bad, bad ? "accepted" : "refused", bad ? "no exception" : "an exception"); if (!bad) shown(c, o, p); c.eval(); c.trace();
  }
  c.sample("1 of 3: 33.33% complete");
}
namespace {
typedef Eigen::Matrix<double, 8, 1> V8; typedef Eigen::Vector2d V2;
struct alignas(64) Over { int id; Over(int i = -1) : id(i) {} bool operator==(const Over& o) const { return id == o.id; } };
int idOf(const Over& o) { return o.id; } int idOf(const V8& v) { return (int)v[3]; } int idOf(const V2& v) { return (int)v[1]; } template <class K, class T> int idOf(const std::pair<K, T>& p) { return idOf(p.second); }
template <class T> T make(int i); template <> Over make<Over>(int i) { return Over(i); } template <> V8 make<V8>(int i) { return V8::Constant(i); } template <> V2 make<V2>(int i) { return V2::Constant(i); }
template <class T> bool aligned(const T& t) { return (reinterpret_cast<uintptr_t>(&t) & (alignof(T) - 1)) == 0; }
template <class C> void check(vf::Ctx& c, const C& k, std::vector<int> want) {
  std::vector<int> got; bool al = true; for (auto& e : k) { got.push_back(idOf(e)); al = al && aligned(e); }
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); c.check(al, "aligned", "an element is not aligned"); c.check(got == want, "content", "the content is wrong"); c.eval();
}
// every history of insertions at both ends and removals
template <class C, class T> void seq(vf::Ctx& c, const char* what, bool front) {
  int depth = c.thorough ? 8 : 6;
  for (int len = 0; len <= depth; ++len) for (int h = 0; h < std::pow(3, len); ++h) {
    C k; std::vector<int> m; int x = h; c.cur("%s, history %d of length %d", what, h, len);
    for (int i = 0; i < len; ++i, x /= 3) { if (x % 3 == 0) k.insert(k.end(), make<T>(i)), m.push_back(i); else if (x % 3 == 1) k.insert(k.begin(), make<T>(i)), m.insert(m.begin(), i); else if (!m.empty()) k.erase(k.begin()), m.erase(m.begin()); }
    check(c, k, m); C cp(k); check(c, cp, m); C mv(std::move(cp)); check(c, mv, m); c.state(std::string(what) + vf::str(h) + "," + vf::str(len)); c.transition(len); c.trace();
  }
}
template <class C, class T> void assoc(vf::Ctx& c, const char* what) {
  int depth = c.thorough ? 8 : 6;
  for (int len = 0; len <= depth; ++len) for (int h = 0; h < std::pow(4, len); ++h) {
    C k; std::map<int, int> m; int x = h; c.cur("%s, history %d of length %d", what, h, len);
    for (int i = 0; i < len; ++i, x /= 4) { int key = x % 4; if (key < 3) k[key] = make<T>(10 + i), m[key] = 10 + i; else k.erase(i % 3), m.erase(i % 3); }
    std::vector<int> w; for (auto& p : m) w.push_back(p.second); check(c, k, w); for (auto& p : m) c.check(k.count(p.first) && idOf(k.find(p.first)->second) == p.second, "lookup", "key " + vf::str(p.first) + " gives another element");
    c.state(std::string(what) + vf::str(h) + "," + vf::str(len)); c.transition(len); c.trace();
  }
}
struct Args { V8 v; int &r; std::string s; const char* how; Args(int& r, std::string&& s, const V8& v) : v(v), r(r), s(std::move(s)), how("move") {} Args(int& r, const std::string& s, const V8& v) : v(v), r(r), s(s), how("copy") {} };
struct Tok { int copies, v; Tok(int v) : copies(0), v(v) {} Tok(const Tok& o) : copies(o.copies + 1), v(o.v) {} Tok(Tok&& o) : copies(o.copies), v(o.v) { o.v = 0; } };
struct Only { Tok t; Only(Tok t) : t(std::move(t)) {} Only() : t(-1) {} };
int alive = 0; struct alignas(64) Counted { int x; Counted(int x) : x(x) { ++alive; if (x < 0) { --alive; throw std::runtime_error("x"); } } ~Counted() { --alive; } };
}
VF_PART(C06_aligned) {
  seq<Aligned<std::vector, Over>::type, Over>(c, "vector of Over", true); seq<Aligned<std::vector, V8>::type, V8>(c, "vector of V8", true); seq<Aligned<std::deque, V8>::type, V8>(c, "deque of V8", true); seq<Aligned<std::list, Over>::type, Over>(c, "list of Over", true);
  seq<Aligned<std::list, V2>::type, V2>(c, "list of V2", true); seq<sm::eigen::Traits<V8>::vector_t, V8>(c, "Traits of V8", true); seq<sm::eigen::Traits<Over>::vector_t, Over>(c, "Traits of Over", true);
  assoc<AlignedMap<int, V8>::type, V8>(c, "map to V8"); assoc<AlignedMap<char, Over>::type, Over>(c, "map to Over"); assoc<AlignedUnorderedMap<int, V8>::type, V8>(c, "unordered map to V8"); assoc<AlignedUnorderedMap<long, Over>::type, Over>(c, "unordered map to Over");
  assoc<sm::eigen::MapTraits<int, V8>::map_t, V8>(c, "MapTraits to V8"); assoc<sm::eigen::MapTraits<int, Over>::map_t, Over>(c, "MapTraits to Over");
  { AlignedMap<int, V8>::type m; for (int i : {3, 1, 2}) m[i] = make<V8>(i); int last = 0; for (auto& p : m) { c.check(p.first > last, "order", "the map is not in order"); last = p.first; } }
  c.cur("aligned_shared");
  std::vector<std::shared_ptr<V8>> keep; std::vector<std::unique_ptr<char[]>> gaps;
  for (int i = 0; i < 200; ++i) { gaps.emplace_back(new char[1 + 7 * i % 63]); keep.push_back(aligned_shared<V8>(V8::Constant(i))); c.check(aligned(*keep.back()) && (*keep.back())[5] == i, "aligned", "aligned_shared gives an object that is not aligned or wrong"); c.eval(); auto o = aligned_shared<const Over>(i); c.check(aligned(*o) && o->id == i, "aligned", "aligned_shared of a const type"); }
  int r = 3; std::string s = "text", s2 = s; V8 v = V8::Constant(2); auto a = aligned_shared<Args>(r, s, v), b = aligned_shared<Args>(r, std::move(s2), v);
  c.check(&a->r == &r && &b->r == &r, "forward-reference", "a reference argument is copied"); c.check(!strcmp(a->how, "copy") && s == "text" && a->s == "text", "forward-copy", "an lvalue is moved"); c.check(!strcmp(b->how, "move") && b->s == "text", "forward-move", "an rvalue is copied"); c.check(a->v == v, "forward", "argument lost");
  Tok tok(5); auto u = aligned_shared<Only>(Tok(4)), u2 = aligned_shared<Only>(tok), u3 = aligned_shared<Only>(std::move(tok)); c.check(u->t.v == 4 && !u->t.copies && u3->t.v == 5 && !u3->t.copies, "forward-move", "an argument given away is copied or lost"); c.check(u2->t.v == 5 && u2->t.copies == 1, "forward-copy", "an argument to keep is not copied once"); c.check(aligned_shared<Only>()->t.v == -1, "forward-none", "no argument");
  { std::weak_ptr<Counted> w; { auto x = aligned_shared<Counted>(1), y = x; w = x; c.check(alive == 1 && y.use_count() == 2, "lifetime", "not one object"); } c.check(alive == 0 && w.expired(), "lifetime", "the object outlives its pointers"); }
  bool t = false; try { aligned_shared<Counted>(-1); } catch (const std::runtime_error&) { t = true; } c.check(t && alive == 0, "constructor-throws", "a throwing constructor");
  c.cur("null_deleter"); int alive0; Counted obj(7); { alive0 = alive; boost::shared_ptr<Counted> p(&obj, sm::null_deleter()); std::shared_ptr<const Counted> q(&obj, sm::null_deleter()); std::shared_ptr<void> z(&obj, sm::null_deleter()); boost::shared_ptr<int> nul((int*)0, sm::null_deleter()); c.check(p->x == 7, "null-deleter", "wrong object"); } c.check(alive == alive0 && obj.x == 7, "null-deleter", "the object is deleted"); c.eval();
  c.sample("map to V8, history 1: aligned");
}
namespace { sm::source_file_pos here() { return SM_SOURCE_FILE_POS; } }
VF_PART(C06_positions) {
  sm::source_file_pos h = here(); c.cur("SM_SOURCE_FILE_POS"); c.check(h.function == "here" && h.file == __FILE__ && h.line == __LINE__ - 2, "macro", "gives " + h.toString()); c.eval();
  for (std::string fn : {"", "f", "operator()"}) for (std::string fi : {"", "a.cpp", "/a b/c:d.cpp"}) for (int l : {0, 1, 99999, -1, 2147483647}) {
    c.cur("%s %s %d", fn.c_str(), fi.c_str(), l); sm::source_file_pos p(fn, fi, l); std::string want = fi + ":" + std::to_string(l) + ": " + fn + "()"; std::ostringstream o; o << p << p; std::string conv = p;
    c.check(p.toString() == want, "toString", "gives " + p.toString()); c.check(o.str() == want + want, "stream", "prints " + o.str()); c.check(conv == want, "conversion", "converts to " + conv); c.eval();
  }
  c.sample("a.cpp:1: f()");
}
