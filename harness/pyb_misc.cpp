// Y05: the rest of the Python bindings does what the C++ library does: logging, timing,
// time stamps and the converters for ids, containers and pickles.
#define PyInt_FromLong PyLong_FromLong
#define PyInt_Check PyLong_Check
#define PyInt_AsUnsignedLongLongMask PyLong_AsUnsignedLongLongMask
#include "pyb.hpp"
#include <list>
#include <map>
#include <set>
#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <sm/Id.hpp>
#include <sm/BoostPropertyTree.hpp>
#include <sm/logging.hpp>
#include <sm/logging/LoggingEvent.hpp>
#include <sm/python/Id.hpp>
#include <sm/python/boost_serialization_pickle.hpp>
#include <sm/python/stl_converters.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <sm/timing/Timer.hpp>
#include <sm/timing/TimestampCorrector.hpp>
#include <sm/value_store/ValueStore.hpp>
#define TEXT_(x) #x
#define TEXT(x) TEXT_(x)
using namespace pyb; typedef std::string S; namespace lg = sm::logging;
namespace {
S def(const S& code) { try { bp::exec(bp::str(code), globals()); return ""; } catch (const bp::error_already_set&) { return err(); } }
S repr(const S& s) { return bp::extract<S>(object(bp::handle<>(PyObject_Repr(bp::str(s).ptr()))))(); }
struct Event { S stream; int level; S file; int line; S function, message, time; };
struct Capture : lg::Logger {
  std::vector<Event> e; typedef std::chrono::system_clock C; bool fixed = true;
  virtual C::time_point currentTimeImplementation() const { return C::time_point(std::chrono::duration_cast<C::duration>(std::chrono::milliseconds(86400000LL * 365 + 1234))); }
  virtual void logImplementation(const lg::LoggingEvent& v) { e.push_back({v.streamName, (int)v.level, v.file, v.line, v.function, v.message, v.timestring}); }
};
const char* const LV[] = {"All", "Finest", "Verbose", "Finer", "Trace", "Fine", "Debug", "Info", "Warn", "Error", "Fatal"};
const lg::Level LC[] = {lg::levels::All, lg::levels::Finest, lg::levels::Verbose, lg::levels::Finer, lg::levels::Trace, lg::levels::Fine, lg::levels::Debug, lg::levels::Info, lg::levels::Warn, lg::levels::Error, lg::levels::Fatal};
const char* const STREAMS[] = {"a", "b c", "", "sm", "naïve"};
S show(const Event& e) { return "(" + e.stream + "|" + std::to_string(e.level) + "|" + e.file + ":" + std::to_string(e.line) + "|" + e.function + "|" + e.message + "|" + e.time + ")"; }
bool same(const Event& a, const Event& b) { return a.stream == b.stream && a.level == b.level && a.file == b.file && a.line == b.line && a.function == b.function && a.message == b.message && a.time == b.time; }
}  // namespace
VF_PART(Y05_logging, 1) {
  start(); auto cap = boost::make_shared<Capture>(); lg::setLogger(cap); S now = cap->currentTimeString();
  // names and order of the levels
  for (size_t i = 0; i < 11; ++i) { c.cur(S("the level ") + LV[i]); c.eval(true); int n = -1; S t; c.check(get(ev(S("int(m.LoggingLevel.") + LV[i] + ")"), n) && n == (int)LC[i], "levels", "is " + std::to_string(n));
    for (S s : {S(LV[i]), S("all"), S("info"), S("FATAL"), S("warn"), S(""), S("nothing"), S("Warn ")}) { c.cur("loggingLevelFromString " + s); c.eval(true); R r = ev("int(m.loggingLevelFromString(" + repr(s) + "))"); std::string w; int x = 0; try { x = (int)lg::levels::fromString(s); } catch (const std::exception& e) { w = e.what(); } c.check(r.ok() ? w.empty() && get(r, n) && n == x : !w.empty(), "levels", pyb::show(r) + " instead of " + (w.empty() ? std::to_string(x) : w)); } }
  // words: the threshold and the streams move with the C++ ones; raw messages arrive as they are
  struct Op { S py; std::function<void()> cc; bool log; }; std::vector<Op> ops; int lvl[] = {0, 3, 7, 10};
  for (int l : lvl) ops.push_back({S("m.setLoggingLevel(m.LoggingLevel.") + LV[l] + ")", [l] { lg::setLevel(LC[l]); }, false});
  for (int s = 0; s < 3; ++s) { S n = STREAMS[s]; ops.push_back({"m.enableNamedLoggingStream(" + repr(n) + ")", [n] { lg::enableNamedStream(n); }, false}); ops.push_back({"m.disableNamedLoggingStream(" + repr(n) + ")", [n] { lg::disableNamedStream(n); }, false}); }
  ops.push_back({"m.disableNamedLoggingStream('sm')", [] { lg::disableNamedStream("sm"); }, false}); ops.push_back({"m.enableNamedLoggingStream('sm')", [] { lg::enableNamedStream("sm"); }, false});
  struct Msg { S file; int line; S fn, text; } msgs[] = {{"f.py", 1, "g", "text"}, {"", 0, "", ""}, {"a b.py", 2147483647, "<lambda>", "100% of {} \"x\"\n\tline"}, {"\xc3\xa4.py", -1, "m", "\xe2\x82\xac"}, {"f.py", 7, "g", S(5000, 'z')}};
  for (int s = -1; s < 5; ++s) { int L = s < 0 ? 6 : 2 * s + 1; Msg g = msgs[(s + 1) % 5]; S n = s < 0 ? S(SMCONSOLE_DEFAULT_NAME) : S(STREAMS[s]); S args = S("m.LoggingLevel.") + LV[L] + ", " + repr(g.file) + ", " + std::to_string(g.line) + ", " + repr(g.fn) + ", " + repr(g.text) + ")";
    ops.push_back({s < 0 ? "m.rawLog(" + args : "m.rawLogNamed(" + repr(n) + ", " + args, [=] { cap->e.push_back({n, (int)LC[L], g.file, g.line, g.fn, g.text, now}); }, true}); }
  auto state = [&](const S& q) { return q; }; (void)state; int D = c.thorough ? 4 : 3; std::vector<int> w;
  auto snapC = [&] { S s = std::to_string((int)lg::getLevel()); for (auto n : STREAMS) s += lg::isNamedStreamEnabled(n) ? '1' : '0'; return s; };
  def("def snap():\n    return str(int(m.getLoggingLevel())) + ''.join('1' if m.isNamedLoggingStreamEnabled(n) else '0' for n in ['a', 'b c', '', 'sm', 'na\xc3\xafve'])\n");
  std::function<void()> rec = [&] {
    if (!w.empty()) {
      S n; for (int i : w) n += (n.empty() ? "" : "; ") + ops[i].py; c.cur(n.size() > 400 ? n.substr(0, 400) : n); c.transition();
      auto init = [] { lg::setLevel(lg::levels::Info); for (auto s : STREAMS) lg::disableNamedStream(s); lg::enableNamedStream(STREAMS[3]); lg::enableNamedStream(SMCONSOLE_DEFAULT_NAME); };
      // C++ first: which raw messages must arrive
      init(); std::vector<Event> exp; for (int i : w) { cap->e.clear(); ops[i].cc(); if (ops[i].log && lg::isNamedStreamEnabled(cap->e[0].stream)) exp.push_back(cap->e[0]); } S sc = snapC(); cap->e.clear();
      // a level below the threshold is left to the caller of the raw functions: all arrive
      init(); S e; for (int i : w) { R r = ex(ops[i].py); if (!r.ok()) e = r.e; } std::vector<Event> got = cap->e; S sp; get(ev("snap()"), sp); S sn = snapC(); c.trace();
      c.check(e.empty(), "raises", e); c.check(sn == sc && sp == sc, "state", "in Python " + sp + ", in C++ " + sn + ", expected " + sc);
      bool ok = got.size() == exp.size(); S d; for (size_t i = 0; ok && i < got.size(); ++i) if (!same(got[i], exp[i])) { ok = false; d = pyb::show(R()) == "" ? "" : show(got[i]) + " instead of " + show(exp[i]); } c.check(ok, "message", d.empty() ? std::to_string(got.size()) + " instead of " + std::to_string(exp.size()) + " messages" : d.substr(0, 300));
      c.outcome(sc + std::to_string(got.size())); c.state(sc + std::to_string(got.size()));
    }
    if ((int)w.size() < D) for (size_t o = 0; o < ops.size(); ++o) { w.push_back(o); rec(); w.pop_back(); }
  };
  rec();
  // the logger itself
  c.cur("setLogger(getLogger())"); c.eval(true); R r = ex("L = m.getLogger(); m.setLogger(L); del L"); c.check(r.ok(), "logger", r.e); c.check(lg::getLogger() == cap, "logger", "another logger is set"); lg::setLogger(cap);
  { auto cap2 = boost::make_shared<Capture>(); c.cur("a logger set again from Python"); c.eval(true); def("L = m.getLogger()"); lg::setLogger(cap2); ex("m.setLogger(L)"); c.check(lg::getLogger() == cap, "logger", "another logger is set"); def("L = None"); ex("m.rawLog(m.LoggingLevel.Fatal, 'f', 1, 'g', 'x')"); c.check(cap2->e.empty(), "logger", "the message goes to the old logger"); lg::setLogger(cap); }
}
// the sm package over the real module
VF_PART(Y05_package, 1) {
  start(); auto cap = boost::make_shared<Capture>(); lg::setLogger(cap); S now = cap->currentTimeString(); globals()["REPO"] = S(TEXT(REPO_DIR));
  S d = def("import types, sys\nfor n in ['numpy', 'numpy_eigen', 'pylab', 'matplotlib', 'matplotlib.axes']: sys.modules[n] = types.ModuleType(n)\nsys.modules['numpy_eigen'].IsBroken = False\nsys.modules['matplotlib'].axes = sys.modules['matplotlib.axes']\nsys.modules['sm.libsm_python'] = m\nsys.path.insert(0, REPO + '/sm_python/python')\nimport sm\n"); c.cur("import sm"); c.eval(true); if (!c.check(d.empty(), "import", d)) return;
  // every function at every threshold, in the default stream, an enabled and a disabled one
  for (int t = 0; t < 11; ++t) for (int l = 1; l < 11; ++l) for (int st = -1; st < 3; ++st) {
    S call = st < 0 ? S("sm.log") + LV[l] + "('m %s')" : S("sm.log") + LV[l] + "Named(" + repr(STREAMS[st]) + ", 'm %s')"; c.cur(S("threshold ") + LV[t] + ": " + call); c.eval(true); lg::setLevel(LC[t]); lg::enableNamedStream(SMCONSOLE_DEFAULT_NAME); lg::enableNamedStream("a"); lg::enableNamedStream("b c"); lg::disableNamedStream(""); cap->e.clear();
    S e = def("exec(compile('def fn():\\n    pass\\n    " + [&] { S q; for (char ch : call) { if (ch == '\'') q += '\\'; q += ch; } return q; }() + "\\nfn()', 'some file.py', 'exec'))"); c.check(e.empty(), "raises", e);
    bool want = LC[t] <= LC[l] && st != 2; S n = st < 0 ? S(SMCONSOLE_DEFAULT_NAME) : S(STREAMS[st]); c.check(cap->e.size() == (want ? 1u : 0u), "count", std::to_string(cap->e.size()) + " messages"); if (want && cap->e.size() == 1) { Event x{n, (int)LC[l], "some file.py", 3, "fn", "m %s", now}; c.check(same(cap->e[0], x), "message", show(cap->e[0]) + " instead of " + show(x)); } c.outcome(std::to_string(cap->e.size()) + call); c.state(S(LV[t]) + call); c.transition(); c.trace(); }
  // set() of an extendible reference: a value of the kind of the Python value
  struct V { const char* py; int k; } vals[] = {{"3", 0}, {"True", 1}, {"2.5", 2}, {"'text'", 3}, {"-7", 0}, {"False", 1}}; const char* keys[] = {"a", "b/c"}; const char* kinds[] = {"Int", "Bool", "Double", "String"};
  int D = c.thorough ? 3 : 2; std::vector<std::array<int, 3>> w;
  std::function<void()> rec = [&] {
    if (!w.empty()) {
      sm::BoostPropertyTree ta, tb; sm::value_store::ExtendibleValueStoreRef a(ta), b(tb); S n, ra, rb; def("T = sm.BoostPropertyTree(); E = sm.ExtendibleValueStoreRef(T)");
      for (auto& o : w) { const V& v = vals[o[1]]; S k = keys[o[0]]; S py = "E.set(" + repr(k) + ", " + v.py + (o[2] == 1 ? ", False" : o[2] == 2 ? ", True, True" : "") + ")"; n += (n.empty() ? "" : "; ") + py; R r = ex(py); ra = r.ok() ? "ok" : "raises";
        rb = "ok"; try { bool add = o[2] == 2 || (o[2] == 0 && !b.hasKey(k)); switch (v.k) { case 0: { int x = S(v.py) == "3" ? 3 : -7; if (add) b.addInt(k, x); else b.getInt(k).update(x); break; } case 1: { bool x = S(v.py) == "True"; if (add) b.addBool(k, x); else b.getBool(k).update(x); break; } case 2: if (add) b.addDouble(k, 2.5); else b.getDouble(k).update(2.5); break; default: if (add) b.addString(k, "text"); else b.getString(k).update("text"); } } catch (const std::exception&) { rb = "raises"; } }
      c.cur(n); c.transition(); c.trace(); c.check(ra == rb, "set", ra + ", in C++ " + rb); S s, t; auto look = [&](const S& k, int i, sm::value_store::ExtendibleValueStoreRef& x) { try { switch (i) { case 0: return std::to_string(x.getInt(k).get()); case 1: return std::to_string(x.getBool(k).get()); case 2: return std::to_string(x.getDouble(k).get()); default: return x.getString(k).get(); } } catch (const std::exception&) { return S("E"); } };
      for (S k : keys) for (int i = 0; i < 4; ++i) { S y = look(k, i, b); t += y + ","; R r = ev("(lambda v: str(v) if not isinstance(v, (bool, float)) else '%d' % v if isinstance(v, bool) else '%.6f' % v)(E.get" + S(kinds[i]) + "(" + repr(k) + "))"); S x = "E"; get(r, x); s += x + ","; } c.check(s == t, "set", "Python shows " + s + " C++ " + t); c.outcome(t); c.state(t); }
    if ((int)w.size() < D) for (int k = 0; k < 2; ++k) for (int v = 0; v < (w.size() ? 4 : 6); ++v) for (int f = 0; f < 3; ++f) { w.push_back({{k, v, f}}); rec(); w.pop_back(); }
  };
  rec();
}
// --- time
VF_PART(Y05_time, 1) {
  start(); std::vector<long long> ns = {0, 1, -1, 999999999LL, 1000000000LL, 1000000001LL, 1445000000123456789LL, -1445000000123456789LL, INT64_MAX, INT64_MIN, INT64_MIN + 1, 4294967296LL, -5}; std::vector<double> ss = {0, -0.0, 1, -1, 0.5, 1e-9, 1.5e-9, 0.999999999, 1445000000.123456789, -2.25, 9.2e9, -9.2e9, 1e-300, 123456.789};
  for (long long n : ns) { c.cur("nsecToSec(" + std::to_string(n) + ")"); c.eval(true); double x = 0; globals()["x"] = object(n); R r = ev("m.nsecToSec(x)"); double y = sm::timing::nsecToSec(n); c.check(get(r, x) && bits(x, y), "nsec", pyb::show(r)); c.outcome(S((const char*)&y, 8)); }
  for (double s : ss) { c.cur("secToNsec(" + std::to_string(s) + ")"); c.eval(true); long long x = 0, y = sm::timing::secToNsec(s); globals()["x"] = object(s); R r = ev("m.secToNsec(x)"); c.check(get(r, x) && x == y, "nsec", pyb::show(r) + " instead of " + std::to_string(y)); c.outcome(std::to_string(y)); }
  for (const char* bad : {"m.nsecToSec(2 ** 63)", "m.nsecToSec(-2 ** 63 - 1)", "m.nsecToSec('1')", "m.secToNsec('x')"}) { c.cur(bad); c.eval(true); R r = ev(bad); c.check(!r.ok(), "nsec", "gives " + pyb::show(r)); }
  { c.cur("nsecNow()"); long long a = sm::timing::nsecNow(), x = 0; bool ok = get(ev("m.nsecNow()"), x); long long b = sm::timing::nsecNow(); c.check(ok && a <= x && x <= b, "nsec", std::to_string(x)); }
  // the tables of the timers
  struct Redirect { std::streambuf* o; std::ostringstream s; Redirect() : o(std::cout.rdbuf(s.rdbuf())) {} ~Redirect() { std::cout.rdbuf(o); } };
  using sm::timing::Timing; using sm::timing::SortType; const char* sn[] = {"SORT_BY_TOTAL", "SORT_BY_MEAN", "SORT_BY_STD", "SORT_BY_MIN", "SORT_BY_MAX", "SORT_BY_NUM_SAMPLES"}; SortType sv[] = {SortType::SORT_BY_TOTAL, SortType::SORT_BY_MEAN, SortType::SORT_BY_STD, SortType::SORT_BY_MIN, SortType::SORT_BY_MAX, SortType::SORT_BY_NUM_SAMPLES};
  auto tables = [&](const S& what) { for (int k = -1; k < 6; ++k) { c.cur(what + ": " + (k < 0 ? "printTiming()" : S("printTimingSorted(") + sn[k] + ")")); c.eval(true); S a, b; R r; { Redirect d; r = ex(k < 0 ? "m.printTiming()" : S("m.printTimingSorted(m.TimingSortType.") + sn[k] + ")"); a = d.s.str(); } std::ostringstream o; if (k < 0) Timing::print(o); else Timing::print(o, sv[k]); b = o.str(); c.check(r.ok() && a == b, "table", r.ok() ? "prints " + a.substr(0, 200) + " instead of " + b.substr(0, 200) : r.e); c.outcome(b); c.state(b); c.transition(); c.trace(); } };
  tables("no timer"); S h; for (int i = 0; i < 6; ++i) { const char* tags[] = {"one", "two", "a.longer name", "one", "two", "one"}; { sm::timing::Timer t(tags[i]); struct timespec p = {0, (i % 3 + 1) * 2000000L}; nanosleep(&p, 0); } h += S(tags[i]) + " "; tables("timed " + h); }
}
// --- correctors
namespace {
template <class T> void corrector(vf::Ctx& c, const S& cls, T unit) {
  struct Redirect { std::streambuf* o; std::ostringstream s; Redirect() : o(std::cout.rdbuf(s.rdbuf())) {} ~Redirect() { std::cout.rdbuf(o); } };
  T rem[] = {0, 1 * unit, 2 * unit, 5 * unit}, off[] = {0, 1 * unit, 3 * unit}; struct O { int r, f, p; }; std::vector<O> all; for (int r = 0; r < 4; ++r) for (int f = 0; f < 3; ++f) for (int p = 0; p < 2; ++p) all.push_back({r, f, p});
  int D = c.thorough ? 4 : 3; std::vector<O> w;
  std::function<void()> rec = [&] {
    sm::timing::TimestampCorrector<T> t; S n; def("t = m." + cls + "()"); bool ok = true; S d;
    auto cmp = [&](const S& py, std::function<object()> f) { R r = ev(py); S x = r.ok() ? S(bp::extract<S>(object(bp::handle<>(PyObject_Repr(r.v.ptr()))))()) : "E" + r.e; S y; try { object o = f(); y = bp::extract<S>(object(bp::handle<>(PyObject_Repr(o.ptr()))))(); } catch (const std::exception& e) { y = S("ERuntimeError: ") + e.what(); } if (x != y && ok) { ok = false; d = py + " gives " + x + ", in C++ " + y; } return y; };
    S sn; for (auto& o : w) { T r = rem[o.r], l = r + off[o.f]; globals()["r"] = object(r); globals()["l"] = object(l); globals()["p"] = object(T(2 * unit)); S py = o.p ? "t.correctTimestampPeriodic(r, l, p)" : "t.correctTimestamp(r, l)"; n += (n.empty() ? "" : "; ") + (o.p ? S("periodic ") : S()) + std::to_string(o.r) + "+" + std::to_string(o.f); sn = cmp(py, [&] { return object(o.p ? t.correctTimestamp(r, l, T(2 * unit)) : t.correctTimestamp(r, l)); }); }
    c.cur(cls + " after " + n); c.transition(); c.trace(); sn += cmp("t.convexHullSize()", [&] { return object(t.convexHullSize()); }); sn += cmp("t.getSlope()", [&] { return object(t.getSlope()); }); sn += cmp("t.getOffset()", [&] { return object(t.getOffset()); }); for (T q : {T(0), T(3 * unit), T(-7 * unit)}) { globals()["q"] = object(q); sn += cmp("t.getLocalTime(q)", [&] { return object(t.getLocalTime(q)); }); }
    S a, b; { Redirect x; ex("t.printHullPoints()"); a = x.s.str(); } { Redirect x; t.printHullPoints(); b = x.s.str(); } if (a != b && ok) { ok = false; d = "printHullPoints() prints " + a + " instead of " + b; } c.check(ok, "corrector", d); c.outcome(sn); c.state(sn + b);
    if ((int)w.size() < D) for (auto& o : all) { if (!w.empty() && o.p != w[0].p) continue; w.push_back(o); rec(); w.pop_back(); }
  };
  rec();
}
}  // namespace
VF_PART(Y05_correctors, 1) { start(); corrector<double>(c, "DoubleTimestampCorrector", 0.25); corrector<boost::int64_t>(c, "LongTimestampCorrector", 1000000000LL); }
// --- converters
SM_DEFINE_ID(FrameId); SM_DEFINE_ID(LandmarkId);
namespace {
FrameId nextFrame(FrameId f) { ++f; return f; } FrameId sameFrame(const FrameId& f) { return f; } LandmarkId sameLandmark(LandmarkId l) { return l; } S idText(FrameId f) { std::ostringstream o; o << f.getId(); return o.str(); }
struct Thing { int i; double d; S s; std::vector<int> v; std::map<S, double> m; Thing() : i(-1), d(0) {} template <class A> void serialize(A& a, unsigned) { a & i & d & s & v & m; } bool operator==(const Thing& o) const { return i == o.i && d == o.d && s == o.s && v == o.v && m == o.m; } };
}  // namespace
VF_PART(Y05_converters, 1) {
  start(); using namespace sm::python;
  for (int k = 0; k < 3; ++k) { Id_python_converter<FrameId>::register_converter(); Id_python_converter<LandmarkId>::register_converter(); }  // registering again does nothing
  globals()["nextFrame"] = bp::make_function(&nextFrame); globals()["sameFrame"] = bp::make_function(&sameFrame); globals()["sameLandmark"] = bp::make_function(&sameLandmark); globals()["idText"] = bp::make_function(&idText);
  std::vector<unsigned long long> ids = {0, 1, 255, 256, 65535, 2147483647ULL, 2147483648ULL, 4294967295ULL, 4294967296ULL, (1ULL << 53) + 1, (1ULL << 63) - 2, (1ULL << 63) - 1};
  for (auto i : ids) { c.cur("the id " + std::to_string(i)); c.eval(true); object v((boost::uint64_t)i); globals()["i"] = v; S t; unsigned long long a = 1, b = 2; c.check(get(ev("idText(i)"), t) && t == std::to_string(i), "id", "arrives as " + t); c.check(get(ev("sameFrame(i)"), a) && a == i, "id", "comes back as " + std::to_string(a)); c.check(get(ev("sameLandmark(i)"), b) && b == i, "id", "comes back as " + std::to_string(b)); c.outcome(t); }
  for (auto i : {1ULL << 63, (1ULL << 63) + 1, ~0ULL, ~0ULL - 1}) { c.cur("there and back: the id " + std::to_string(i)); c.eval(true); S t; R r; try { globals()["i"] = object(FrameId(i)); r = ev("idText(sameFrame(i))"); } catch (const bp::error_already_set&) { r.e = err(); } c.check(get(r, t) && t == std::to_string(i), "id", pyb::show(r)); c.outcome(t); }
  { c.cur("nextFrame"); c.eval(true); int n = 0; c.check(get(ev("nextFrame(41)"), n) && n == 42, "id", std::to_string(n)); for (const char* bad : {"sameFrame('1')", "sameFrame(1.5)", "sameFrame(None)", "sameFrame([1])"}) { c.cur(bad); c.eval(true); R r = ev(bad); c.check(!r.ok() && r.e.find("ArgumentError") != S::npos, "id", pyb::show(r)); } }
  // lists and maps
  std::vector<std::vector<int>> ls{{}}; for (size_t i = 0; i < ls.size() && ls[i].size() < 4; ++i) for (int x : {0, -3, 7}) { auto v = ls[i]; v.push_back(x); ls.push_back(v); }
  for (auto& v : ls) { c.eval(true); S n; for (int x : v) n += std::to_string(x) + " "; c.cur("stlToList " + n); std::list<int> l(v.begin(), v.end()); bp::list o, e; o.append(5); e.append(5); for (int x : v) e.append(x); stlToList(l.begin(), l.end(), o); c.check(o == e, "list", "other elements"); bp::list o2; stlToList(v.begin(), v.end(), o2); c.check(bp::len(o2) == (long)v.size(), "list", "other elements"); std::map<int, S> m; for (size_t i = 0; i < v.size(); ++i) m[v[i]] = std::to_string(i); bp::dict d, x; d[99] = "kept"; d[0] = "old"; x[99] = "kept"; x[0] = "old"; for (auto& p : m) x[p.first] = p.second; stlToDict(m.begin(), m.end(), d); c.check(d == x, "dict", "other entries"); c.outcome(n); c.state(n); c.transition(); c.trace(); }
  // pickles
  bp::class_<Thing>("Thing").def_readwrite("i", &Thing::i).def_readwrite("d", &Thing::d).def_readwrite("s", &Thing::s).def_pickle(pickle_suite<Thing>());
  globals()["Thing"] = object(bp::handle<>(bp::borrowed((PyObject*)object(Thing()).ptr()->ob_type))); ex("Thing.__module__ = '__main__'");
  std::vector<S> texts = {"", "word", "two words\nand a line", " \t ", S("zero\0byte", 9), "22 serialization::archive", "\xc3\xa4"}; std::vector<double> ds = {0, -0.0, 0.1, -1e300, 5e-324, 1.0 / 3};
  for (size_t i = 0; i < texts.size(); ++i) for (size_t j = 0; j < ds.size(); ++j) for (const char* how : {"pickle.loads(pickle.dumps(t, 2))", "pickle.loads(pickle.dumps(t))", "copy.copy(t)", "copy.deepcopy(t)"}) {
    Thing t; t.i = (int)(i * 7 - j); t.d = ds[j]; t.s = texts[i]; for (size_t k = 0; k < j; ++k) { t.v.push_back((int)k - 2); t.m[texts[k]] = ds[k]; } c.cur(S(how) + " of the object " + std::to_string(i) + "," + std::to_string(j)); c.eval(true); object o(t); globals()["t"] = o; R r = ev(how); bp::extract<Thing&> x(r.v); c.check(r.ok() && x.check() && x() == t && S((char*)&x().d, 8) == S((char*)&t.d, 8), "pickle", r.ok() ? "another object" : r.e); if (r.ok() && x.check()) { x().i = 12345; x().v.clear(); bp::extract<Thing&> y(o); c.check(y() == t, "pickle", "the copy shares its content"); } c.outcome(t.s + std::to_string(t.d)); }
  for (const char* bad : {"Thing().__setstate__((1,))", "Thing().__setstate__((None,))", "Thing().__setstate__(([],))", "Thing().__setstate__(())", "Thing().__setstate__(('not an archive',))"}) { c.cur(bad); c.eval(true); R r = ev(bad); c.check(!r.ok(), "pickle", "gives " + pyb::show(r)); }
}
