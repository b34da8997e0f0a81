// C05 sameness macros.
#include "vf.hpp"
#include <algorithm>
#include <limits>
#include <boost/make_shared.hpp>
#include <sm/serialization_macros.hpp>
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wcpp"
#include <sm/is_binary_equal.hpp>
#pragma GCC diagnostic pop
using namespace sm;
// ------------------------------------------------------------------- C05
namespace {
struct Plain { int k; int noise; bool operator==(const Plain& o) const { return k == o.k; } };
std::ostream& operator<<(std::ostream& o, const Plain& p) { return o << "Plain" << p.k; }
struct Bin { int k; int noise; bool isBinaryEqual(const Bin& o) const { return k == o.k; } };
std::ostream& operator<<(std::ostream& o, const Bin& p) { return o << "Bin" << p.k; }
// isBinaryEqual is to be preferred over ==
struct Both { int k; int noise; bool isBinaryEqual(const Both& o) const { return k == o.k; } bool operator==(const Both& o) const { return noise == o.noise; } };
std::ostream& operator<<(std::ostream& o, const Both& p) { return o << "Both" << p.k; }
struct Dark { int k; int noise; bool operator==(const Dark& o) const { return k == o.k; } };
struct DarkBin { int k; int noise; bool isBinaryEqual(const DarkBin& o) const { return k == o.k; } };
template <class T> T mkv(int k, int noise) { T t; t.k = k; t.noise = noise; return t; }
template <> int mkv<int>(int k, int) { return k; }
template <> std::string mkv<std::string>(int k, int) { return k ? "one" : "zero"; }
template <class T> struct Txt { static std::string of(int k) { return "NA"; } };
template <> struct Txt<Plain> { static std::string of(int k) { return "Plain" + vf::str(k); } };
template <> struct Txt<Bin> { static std::string of(int k) { return "Bin" + vf::str(k); } };
template <> struct Txt<Both> { static std::string of(int k) { return "Both" + vf::str(k); } };
template <> struct Txt<int> { static std::string of(int k) { return vf::str(k); } };
template <> struct Txt<std::string> { static std::string of(int k) { return k ? "one" : "zero"; } };
struct Cap { std::ostringstream o; std::streambuf* old; Cap() : old(std::cout.rdbuf(o.rdbuf())) {} ~Cap() { std::cout.rdbuf(old); } };
template <class T> struct Holder {
  T member; int other;
  bool same(const Holder& rhs) const { return SM_CHECKMEMBERSSAME(rhs, member); }
  bool notsame(const Holder& rhs) const { return !SM_CHECKMEMBERSSAME(rhs, member); }
  bool both(const Holder& rhs) const { return SM_CHECKMEMBERSSAME(rhs, member) && SM_CHECKMEMBERSSAME(rhs, other); }
  bool both2(const Holder& rhs) const { return SM_CHECKMEMBERSSAME(rhs, other) && SM_CHECKMEMBERSSAME(rhs, member); }
  bool either(const Holder& rhs) const { return SM_CHECKMEMBERSSAME(rhs, other) || SM_CHECKMEMBERSSAME(rhs, member); }
  bool verbose(const Holder& rhs, bool v) const { return SM_CHECKMEMBERSSAME(rhs, member, v); }
};
template <class V> void judge5(vf::Ctx& c, const char* type, const V& a, const V& b, bool same, const std::string& ta, const std::string& tb) {
  for (int verbose = 0; verbose < 2; ++verbose) for (int neg = 0; neg < 2; ++neg) {
    c.cur(std::string(type) + ": " + ta + " and " + tb + (verbose ? ", verbose" : "") + (neg ? ", other member differs" : ""));
    bool r[12]; std::string out, out2, out3;
    { Cap k; SET_CHECKSAME_VERBOSITY(verbose); r[0] = SM_CHECKSAME(a, b); out = k.o.str(); }
    c.check(IS_CHECKSAME_CURRENTLY_VERBOSE == (bool)verbose, "verbosity", "the verbosity is not what was set");
    { Cap k; r[1] = !SM_CHECKSAME(a, b); r[2] = SM_CHECKSAME(a, b) && SM_CHECKSAME(neg, 0); r[3] = SM_CHECKSAME(neg, 0) && SM_CHECKSAME(a, b); r[4] = SM_CHECKSAME(neg, 0) || SM_CHECKSAME(a, b); r[5] = SM_CHECKSAME(a, b) == true; r[6] = SM_CHECKSAME(b, a); }
    { Cap k; SET_CHECKSAME_VERBOSITY(!verbose); r[7] = SM_CHECKSAME(a, b, (bool)verbose); out2 = k.o.str(); c.check(IS_CHECKSAME_CURRENTLY_VERBOSE == (bool)verbose, "verbosity", "the third argument does not set the verbosity"); r[8] = SM_CHECKSAME(a, b, false) && SM_CHECKSAME(neg, 0, false); }
    c.check(r[0] == same && r[6] == same, "same", r[0] ? "considered the same" : "not considered the same");
    c.check(r[1] == !same, "negation", "the negation of the check is wrong");
    c.check(r[2] == (same && !neg) && r[3] == (same && !neg) && r[8] == (same && !neg), "conjunction", "two checks combined with && give the wrong answer");
    c.check(r[4] == (same || !neg) && r[5] == same, "disjunction", "the check combined with || or == gives the wrong answer");
    c.check(r[7] == same, "same", "the form with verbosity gives the wrong answer");
    bool say = verbose && !same;
    for (const std::string* o : {&out, &out2}) { c.check(o->empty() == !say, "output", say ? "no report of the difference" : "prints " + *o); if (say) { size_t p = o->find(ta); c.check(p != std::string::npos && o->find(tb, p + ta.size()) != std::string::npos, "output", "the report does not show both values: " + *o); } }
    Holder<V> x, y; x.member = a; y.member = b; x.other = neg; y.other = 0;
    { Cap k; SET_CHECKSAME_VERBOSITY(verbose); r[0] = x.same(y); out = k.o.str(); }
    { Cap k; r[1] = x.notsame(y); r[2] = x.both(y); r[3] = x.both2(y); r[4] = x.either(y); r[5] = y.same(x); }
    { Cap k; SET_CHECKSAME_VERBOSITY(!verbose); r[6] = x.verbose(y, verbose); out2 = k.o.str(); }
    c.check(r[0] == same && r[5] == same && r[6] == same, "member", r[0] ? "members considered the same" : "members not considered the same");
    c.check(r[1] == !same && r[2] == (same && !neg) && r[3] == (same && !neg) && r[4] == (same || !neg), "conjunction", "member checks combined give the wrong answer");
    for (const std::string* o : {&out, &out2}) { c.check(o->empty() == !say, "output", say ? "no report of the difference" : "prints " + *o); if (say) { size_t p = o->find(ta); c.check(p != std::string::npos && o->find(tb, p + ta.size()) != std::string::npos, "output", "the report does not show both values: " + *o); } }
    c.eval(!same);
  }
  SET_CHECKSAME_SILENT;
}
template <class T> void type5(vf::Ctx& c, const char* name) {
  std::string N = name;
  for (int k = 0; k < 2; ++k) for (int n1 = 0; n1 < 2; ++n1) for (int n2 = 0; n2 < 2; ++n2) {
    T a = mkv<T>(0, n1), b = mkv<T>(k, n2); bool same = k == 0; std::string ta = Txt<T>::of(0), tb = Txt<T>::of(k);
    judge5<T>(c, name, a, b, same, ta, tb);
    judge5<T*>(c, (N + "*").c_str(), &a, &b, same, ta, tb);
    judge5<boost::shared_ptr<T> >(c, ("shared_ptr<" + N + ">").c_str(), boost::make_shared<T>(a), boost::make_shared<T>(b), same, ta, tb);
  }
  std::string nl = Txt<T>::of(0) == "NA" ? "NA" : "NULL";
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
    T a = mkv<T>(1, 0), b = mkv<T>(1, 0); std::string ta = i ? Txt<T>::of(1) : nl, tb = j ? Txt<T>::of(1) : nl;
    judge5<T*>(c, (N + "*").c_str(), i ? &a : nullptr, j ? &b : nullptr, i == j, ta, tb);
    boost::shared_ptr<T> p, q; if (i) p.reset(new T(a)); if (j) q.reset(new T(b));
    judge5<boost::shared_ptr<T> >(c, ("shared_ptr<" + N + ">").c_str(), p, q, i == j, ta, tb);
  }
  T z = mkv<T>(1, 0); judge5<T*>(c, "one object", &z, &z, true, Txt<T>::of(1), Txt<T>::of(1));
}
}
VF_PART(C05_same, 1) {
  type5<int>(c, "int"); type5<std::string>(c, "string"); type5<Plain>(c, "class with =="); type5<Bin>(c, "class with isBinaryEqual");
  type5<Both>(c, "class with both"); type5<Dark>(c, "class without output"); type5<DarkBin>(c, "class with isBinaryEqual without output");
  c.sample("shared_ptr<class with both>: null and not null");
}
// the functions of the deprecated header
namespace {
template <class T> void pointers(vf::Ctx& c, const char* name) {
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int n = 0; n < 2; ++n) for (int v = 0; v < 2; ++v) {   // null, 0, 1
    c.cur("isBinaryEqual of %s, %d and %d%s", name, i, j, v ? ", verbose" : ""); SET_CHECKSAME_VERBOSITY(v);
    boost::shared_ptr<T> p, q; if (i) p = boost::make_shared<T>(mkv<T>(i - 1, 0)); if (j) q = boost::make_shared<T>(mkv<T>(j - 1, n));
    bool r, s, t; { Cap k; r = sm::isBinaryEqual(p, q); s = sm::isBinaryEqual(p.get(), q.get()); t = sm::isBinaryEqual((const T*)p.get(), (const T*)p.get()) && sm::isBinaryEqual(p, p); }
    c.check(r == (i == j), "shared-pointers", r ? "considered equal" : "considered different"); c.check(s == (i == j), "pointers", s ? "considered equal" : "considered different"); c.check(t, "itself", "an object differs from itself"); c.eval(i != j);
  }
  SET_CHECKSAME_SILENT;
}
}
VF_PART(C05_pointers, 1) { pointers<int>(c, "int"); pointers<std::string>(c, "string"); pointers<Plain>(c, "class with =="); pointers<Bin>(c, "class with isBinaryEqual"); pointers<Both>(c, "class with both"); pointers<Dark>(c, "class without output"); pointers<DarkBin>(c, "class with isBinaryEqual without output"); }
