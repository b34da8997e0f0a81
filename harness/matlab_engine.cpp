// A01 the wrapper of MATLAB's engine, over the stand-in in stubs/.
#include "vf.hpp"
#include <cstring>
#include <limits>
#include <fcntl.h>
#include <unistd.h>
#include <iostream>
#include <memory>
#include <sm/matlab/Engine.hpp>
namespace M = sm::matlab;
using mxstub::world; using Eigen::MatrixXd;
namespace {
// The outcome of a call: "" or the class of the exception.
template <class F> std::string outcome(F f) {
  try { f(); return ""; }
  catch (const M::InvalidVariableNameException&) { return "InvalidVariableName"; } catch (const M::InvalidTypeException&) { return "InvalidType"; } catch (const M::InvalidSizeException&) { return "InvalidSize"; }
  catch (const M::NoSuchVariableException&) { return "NoSuchVariable"; } catch (const M::EmptyVariableException&) { return "EmptyVariable"; } catch (const M::EngineNotInitializedException&) { return "NotInitialized"; }
  catch (const M::EnginePutException&) { return "Put"; } catch (const M::EngineExecutionException&) { return "Execution"; } catch (const std::exception& e) { return std::string("another exception: ") + e.what(); } catch (...) { return "no std::exception"; }
}
template <class T> mxArray* numbers(mxClassID c, std::vector<size_t> d, std::vector<T> v) { mxArray* a = mxstub::make(c, d); memcpy(a->data, v.data(), v.size() * sizeof(T)); return a; }
mxArray* text(const std::string& s) { mxArray* t = mxCreateString(s.c_str()); mxArray* a = mxstub::copy(t); mxDestroyArray(t); return a; }
struct Kind { const char* name; std::function<mxArray*()> make; bool numeric, dbl, isChar, logical, sparse; size_t rows, cols, dims; double scalar; std::string str; };
std::vector<Kind> kinds() {
  double nan = std::numeric_limits<double>::quiet_NaN(); (void)nan;
  return {
    {"double scalar", [] { return numbers<double>(mxDOUBLE_CLASS, {1, 1}, {-2.5}); }, true, true, false, false, false, 1, 1, 2, -2.5, ""},
    {"double 2x3", [] { return numbers<double>(mxDOUBLE_CLASS, {2, 3}, {1, 2, 3, 4, 5, 6}); }, true, true, false, false, false, 2, 3, 2, 0, ""},
    {"double 0x0", [] { return mxstub::make(mxDOUBLE_CLASS, {0, 0}); }, true, true, false, false, false, 0, 0, 2, 0, ""},
    {"double 0x3", [] { return mxstub::make(mxDOUBLE_CLASS, {0, 3}); }, true, true, false, false, false, 0, 3, 2, 0, ""},
    {"double 2x2x2", [] { return numbers<double>(mxDOUBLE_CLASS, {2, 2, 2}, {1, 2, 3, 4, 5, 6, 7, 8}); }, true, true, false, false, false, 2, 4, 3, 0, ""},
    {"sparse 4x4", [] { mxArray* a = mxstub::make(mxDOUBLE_CLASS, {4, 4}, true, 2); ((double*)a->data)[0] = 1; ((double*)a->data)[1] = 2; return a; }, true, true, false, false, true, 4, 4, 2, 0, ""},
    {"single scalar", [] { return numbers<float>(mxSINGLE_CLASS, {1, 1}, {0.5f}); }, true, false, false, false, false, 1, 1, 2, 0.5, ""},
    {"int8 1x5", [] { return numbers<int8_t>(mxINT8_CLASS, {1, 5}, {1, 2, 3, 4, 5}); }, true, false, false, false, false, 1, 5, 2, 0, ""},
    {"int32 scalar", [] { return numbers<int32_t>(mxINT32_CLASS, {1, 1}, {-7}); }, true, false, false, false, false, 1, 1, 2, -7, ""},
    {"int64 scalar", [] { return numbers<int64_t>(mxINT64_CLASS, {1, 1}, {1LL << 40}); }, true, false, false, false, false, 1, 1, 2, double(1LL << 40), ""},
    {"uint64 2x1", [] { return numbers<uint64_t>(mxUINT64_CLASS, {2, 1}, {1, 2}); }, true, false, false, false, false, 2, 1, 2, 0, ""},
    {"true", [] { return numbers<char>(mxLOGICAL_CLASS, {1, 1}, {1}); }, false, false, false, true, false, 1, 1, 2, 1, ""},
    {"false", [] { return numbers<char>(mxLOGICAL_CLASS, {1, 1}, {0}); }, false, false, false, true, false, 1, 1, 2, 0, ""},
    {"logical 2x2", [] { return numbers<char>(mxLOGICAL_CLASS, {2, 2}, {1, 0, 0, 1}); }, false, false, false, true, false, 2, 2, 2, 0, ""},
    {"logical 0x0", [] { return mxstub::make(mxLOGICAL_CLASS, {0, 0}); }, false, false, false, true, false, 0, 0, 2, 0, ""},
    {"string", [] { return text("hello"); }, false, false, true, false, false, 1, 5, 2, 0, "hello"},
    {"one character", [] { return text("x"); }, false, false, true, false, false, 1, 1, 2, 0, "x"},
    {"empty string", [] { return text(""); }, false, false, true, false, false, 0, 0, 2, 0, ""},
    {"long string", [] { return text(std::string(700, 'q') + "end"); }, false, false, true, false, false, 1, 703, 2, 0, std::string(700, 'q') + "end"},
    {"cell", [] { return mxstub::make(mxCELL_CLASS, {1, 2}); }, false, false, false, false, false, 1, 2, 2, 0, ""},
    {"struct", [] { return mxstub::make(mxSTRUCT_CLASS, {1, 1}); }, false, false, false, false, false, 1, 1, 2, 0, ""},
  };
}
// What holds after every call, whatever its outcome.
void invariant(vf::Ctx& c, const char* what) {
  c.check(world().live == 0, "arrays-left", std::string(what) + ": " + std::to_string(world().live) + " arrays are not given back"); world().live = 0;
  c.check(world().misuse.empty(), "misuse", std::string(what) + ": " + world().misuse); world().misuse.clear();
  c.check(world().badNames.empty(), "bad-name", world().badNames.empty() ? "" : "a variable " + vf::quote(world().badNames[0]) + " reached MATLAB"); world().badNames.clear();
}
MatrixXd sentinel() { MatrixXd m(1, 2); m << 11, 12; return m; }
bool bits(const MatrixXd& a, const MatrixXd& b) { return a.rows() == b.rows() && a.cols() == b.cols() && !(a.size() && memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
std::string ex(const std::string& s) { return s.empty() ? "no exception" : s; }
// Every getter and tester on a variable of this kind (NULL: it does not exist).
void readers(vf::Ctx& c, M::Engine& e, const std::string& n, const Kind* k) {
  size_t count = k ? k->rows * k->cols : 0; bool r = false; std::string o;
  auto expect = [&](const char* call, const std::string& want, bool ret) { c.check(o == want, std::string(call) + "-exception", ex(o) + " instead of " + ex(want)); if (o == want && want.empty()) c.check(r == ret, std::string(call) + "-result", r ? "true" : "false"); invariant(c, call); c.transition(); };
  double d = 77; o = outcome([&] { r = e.get(n, d); });
  std::string want = !k ? "" : !k->numeric ? "InvalidType" : !count ? "EmptyVariable" : count != 1 ? "InvalidType" : "";
  expect("get(double)", want, k != NULL); c.check(k && want.empty() ? d == k->scalar : d == 77, "get(double)-value", vf::str(d));
  std::string s = "before"; o = outcome([&] { r = e.get(n, s); });
  // of an empty variable that is not a text, either exception says the truth
  if (k && !count && !k->isChar && o == "InvalidType") o = "EmptyVariable";
  want = !k ? "" : !count ? "EmptyVariable" : !k->isChar ? "InvalidType" : ""; expect("get(string)", want, k != NULL); c.check(s == (k && want.empty() ? k->str : "before"), "get(string)-value", vf::quote(s));
  bool b = k && !k->scalar; const bool b0 = b; o = outcome([&] { r = e.get(n, b); });
  want = !k ? "" : !k->logical ? "InvalidType" : !count ? "EmptyVariable" : count != 1 ? "InvalidType" : ""; if (k && !count && !k->logical && o == "EmptyVariable") o = "InvalidType"; expect("get(bool)", want, k != NULL); c.check(b == (k && want.empty() ? k->scalar != 0 : b0), "get(bool)-value", b ? "true" : "false");
  MatrixXd m = sentinel(); o = outcome([&] { r = e.getEigen(n, m); });
  want = !k ? "" : !k->numeric ? "InvalidType" : !count ? "EmptyVariable" : !k->dbl || k->sparse ? "InvalidType" : k->dims != 2 ? "InvalidSize" : "";
  if (k && k->numeric && (!count || k->dims != 2) && !k->dbl && o == "InvalidType") want = o;
  expect("getEigen", want, k != NULL);
  if (k && want.empty()) { MatrixXd x(k->rows, k->cols); mxArray* a = k->make(); memcpy(x.data(), a->data, a->nbytes); mxstub::drop(a); c.check(bits(m, x), "getEigen-value", "another matrix"); }
  else if (want.empty() || !want.empty()) c.check(bits(m, sentinel()), "getEigen-untouched", "the result changed though nothing was read");
  o = outcome([&] { r = e.exists(n); }); expect("exists", "", k != NULL);
  want = k ? "" : "NoSuchVariable";
  o = outcome([&] { r = e.isScalar(n); }); expect("isScalar", want, count == 1);
  o = outcome([&] { r = e.isEmpty(n); }); expect("isEmpty", want, count == 0);
  o = outcome([&] { r = e.isCharOrString(n); }); expect("isCharOrString", want, k && k->isChar);
  size_t rows = 55, cols = 66; o = outcome([&] { r = e.getDimensions(n, rows, cols); }); expect("getDimensions", "", k != NULL);
  c.check(k ? rows == k->rows && cols == k->cols : rows == 55 && cols == 66, "getDimensions-value", std::to_string(rows) + "x" + std::to_string(cols));
}
void closed(vf::Ctx& c, long times) { c.check(world().opened == times && world().closed == times, "close", "opened " + std::to_string(world().opened) + " times, closed " + std::to_string(world().closed) + " times"); invariant(c, "the end"); }
}
VF_PART(A01_readers, 1) {
  std::vector<Kind> ks = kinds();
  for (int w = 0; w < 2; ++w) for (size_t i = 0; i <= ks.size(); ++i) for (size_t j = 0; j <= ks.size(); ++j) {
    const Kind* k = i < ks.size() ? &ks[i] : NULL; c.cur("a variable: %s; another one: %s; engine started by %s", k ? k->name : "missing", j < ks.size() ? ks[j].name : "missing", w ? "initialize" : "the constructor"); mxstub::reset();
    { M::Engine e(!w); if (w) c.check(!e.isInitialized() && e.initialize(), "initialize", "failed"); if (k) mxstub::set("v", k->make()); if (j < ks.size()) mxstub::set("V1_x", ks[j].make()); readers(c, e, "v", k); readers(c, e, "V1_x", j < ks.size() ? &ks[j] : NULL); c.state(std::to_string(i) + "/" + std::to_string(j)); }
    closed(c, 1); c.trace();
  }
  c.sample("every getter and tester on a 4x4 sparse variable: InvalidTypeException, nothing read, nothing left");
}
namespace {
template <class T> void scalar(vf::Ctx& c, M::Engine& e, const char* type, std::vector<T> vs) {
  for (const T& v : vs) for (int faulty = 0; faulty < 2; ++faulty) {
    c.cur("put of a %s scalar %s%s", type, vf::str(v).c_str(), faulty ? ", which fails" : ""); mxstub::set("x", text("old")); world().putFails = faulty; std::string o = outcome([&] { e.put("x", v); }); world().putFails = false; invariant(c, "put");
    c.check(o == (faulty ? "Put" : ""), "put-exception", ex(o)); if (faulty) { std::string s; c.check(outcome([&] { e.get("x", s); }).empty() && s == "old", "put-failed-changed", s); continue; }
    double d = 1234; bool r = false; o = outcome([&] { r = e.get("x", d); }); double want = static_cast<double>(v); c.check(o.empty() && r && !memcmp(&d, &want, sizeof d), "scalar-round-trip", ex(o) + " " + vf::str(d)); invariant(c, "get"); c.trace(); c.transition(2);
  }
}
template <class X> void matrix(vf::Ctx& c, M::Engine& e, const char* what, const X& x) {
  for (int faulty = 0; faulty < 2; ++faulty) {
    c.cur("putEigen of a %s of %d x %d%s", what, (int)x.rows(), (int)x.cols(), faulty ? ", which fails" : ""); mxstub::set("x", text("old")); world().putFails = faulty; std::string o = outcome([&] { e.putEigen("x", x); }); world().putFails = false; invariant(c, "putEigen");
    c.check(o == (faulty ? "Put" : ""), "putEigen-exception", ex(o)); if (faulty) { std::string s; c.check(outcome([&] { e.get("x", s); }).empty() && s == "old", "put-failed-changed", s); continue; }
    MatrixXd want = x.template cast<double>(), m = sentinel(); size_t r0 = 9, c0 = 9; bool r = false; o = outcome([&] { r = e.getDimensions("x", r0, c0); }); c.check(o.empty() && r && r0 == (size_t)x.rows() && c0 == (size_t)x.cols(), "putEigen-size", std::to_string(r0) + "x" + std::to_string(c0));
    o = outcome([&] { r = e.getEigen("x", m); }); invariant(c, "getEigen"); c.transition(3); c.trace();
    if (!x.size()) c.check(o == "EmptyVariable" && bits(m, sentinel()), "putEigen-empty", ex(o)); else c.check(o.empty() && r && bits(m, want), "matrix-round-trip", ex(o));
  }
}
}
VF_PART(A01_round_trips, 1) {
  mxstub::reset(); const double inf = std::numeric_limits<double>::infinity();
  { M::Engine e(true);
    scalar<double>(c, e, "double", {0, -0.0, 1, -1.5, 1e-9, -1e-15, 1e-300, 3e9, -7e18, 1.5e19, 1e308, -5e-324, inf, -inf, std::nan(""), 0.1}); scalar<float>(c, e, "float", {0.f, 0.1f, -1e38f}); scalar<int>(c, e, "int", {0, 1, -1, INT32_MAX, INT32_MIN}); scalar<unsigned>(c, e, "unsigned", {0u, UINT32_MAX}); scalar<uint64_t>(c, e, "uint64", {0, 1ull << 53, (1ull << 53) + 2}); scalar<int64_t>(c, e, "int64", {-(1ll << 53), 5}); scalar<char>(c, e, "char", {'a', 1}); scalar<unsigned char>(c, e, "unsigned char", {200}); scalar<short>(c, e, "short", {-300});
    for (int b = 0; b < 2; ++b) for (int faulty = 0; faulty < 2; ++faulty) { c.cur("put of %d%s", b, faulty ? ", which fails" : ""); mxstub::set("x", text("old")); world().putFails = faulty; std::string o = outcome([&] { e.put("x", (bool)b); }); world().putFails = false; invariant(c, "put"); c.check(o == (faulty ? "Put" : ""), "put-exception", ex(o)); bool g = !b, r = false; o = outcome([&] { r = e.get("x", g); }); invariant(c, "get"); if (faulty) c.check(o == "InvalidType", "put-failed-changed", ex(o)); else c.check(o.empty() && r && g == (bool)b, "bool-round-trip", ex(o)); c.trace(); }
    std::vector<std::string> ts = {"", "a", "ab", "'quoted'", "two\nlines", " blanks ", "\xe4\xff", "%d %s", std::string(255, 'x'), std::string(256, 'y'), std::string(257, 'z'), std::string(4000, '_')};
    for (auto& t : ts) for (int faulty = 0; faulty < 2; ++faulty) { c.cur("put of %s (%zu)%s", vf::quote(t.substr(0, 20)).c_str(), t.size(), faulty ? ", which fails" : ""); mxstub::set("x", numbers<double>(mxDOUBLE_CLASS, {1, 1}, {4})); world().putFails = faulty; std::string o = outcome([&] { e.put("x", t); }); world().putFails = false; invariant(c, "put"); c.check(o == (faulty ? "Put" : ""), "put-exception", ex(o)); std::string g = "before"; bool r = false; o = outcome([&] { r = e.get("x", g); }); invariant(c, "get");
      if (faulty) c.check(o == "InvalidType" && g == "before", "put-failed-changed", ex(o)); else if (t.empty()) c.check(o == "EmptyVariable" && g == "before" && e.isEmpty("x"), "string-empty", ex(o)); else c.check(o.empty() && r && g == t && e.isCharOrString("x"), "string-round-trip", ex(o) + " " + vf::quote(g.substr(0, 40))); invariant(c, "testers"); c.trace(); }
    for (int r = 0; r <= (c.thorough ? 9 : 5); ++r) for (int k = 0; k <= (c.thorough ? 9 : 5); ++k) {
      MatrixXd m(r, k); for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) m(i, j) = (i * 7 - j * 3) * 0.1 + (i == j ? -0.0 : 1e-300 * j);
      if (r && k) { m(0, 0) = inf; m(r - 1, k - 1) = std::nan(""); }
      matrix(c, e, "MatrixXd", m); matrix(c, e, "row major matrix", Eigen::Matrix<double, -1, -1, Eigen::RowMajor>(m)); matrix(c, e, "transposed matrix", m.transpose()); MatrixXd z = m; if (r && k) z(0, 0) = z(r - 1, k - 1) = 3; matrix(c, e, "MatrixXf", z.cast<float>().eval()); matrix(c, e, "MatrixXi", (z * 1000).cast<int>().eval()); matrix(c, e, "product", z * 2.0);
      MatrixXd big = MatrixXd::Constant(r + 3, k + 2, 8); big.block(1, 1, r, k) = m; matrix(c, e, "block", big.block(1, 1, r, k)); if (r && k) { matrix(c, e, "row", m.row(r - 1)); matrix(c, e, "column", m.col(k - 1)); }
    }
    for (double v : {0.0, -0.0, 1e-9, -1e-13, 1e-15, 1e-300, 5e-324, 1e13, -1e300, inf, -inf}) for (int r = 1; r <= 3; ++r) for (int k = 1; k <= 3; ++k) { matrix(c, e, "constant matrix", MatrixXd::Constant(r, k, v)); MatrixXd m = MatrixXd::Ones(r, k); m(r - 1, 0) = v; matrix(c, e, "matrix with one other element", m); m.setZero(); m(0, k - 1) = v; matrix(c, e, "matrix with one element", m); }
    matrix(c, e, "Vector3d", Eigen::Vector3d(1, 2, 3)); matrix(c, e, "RowVector2i", Eigen::RowVector2i(4, -5)); matrix(c, e, "identity", Eigen::Matrix3d::Identity());
  }
  closed(c, 1); c.sample("putEigen of a block of 3 x 4 with an infinity and a NaN, getEigen: the same bits; the same put failing: EnginePutException, the variable is as before");
}
// Every operation while no engine runs, and every name.
VF_PART(A01_refused, 1) {
  struct Op { const char* name; std::function<void(M::Engine&, const std::string&)> f; bool named; };
  std::vector<Op> ops = {
    {"exists", [](M::Engine& e, const std::string& n) { e.exists(n); }, true}, {"isScalar", [](M::Engine& e, const std::string& n) { e.isScalar(n); }, true}, {"isEmpty", [](M::Engine& e, const std::string& n) { e.isEmpty(n); }, true}, {"isCharOrString", [](M::Engine& e, const std::string& n) { e.isCharOrString(n); }, true}, {"getDimensions", [](M::Engine& e, const std::string& n) { size_t a, b; e.getDimensions(n, a, b); }, true},
    {"put(double)", [](M::Engine& e, const std::string& n) { e.put(n, 1.5); }, true}, {"put(int)", [](M::Engine& e, const std::string& n) { e.put(n, 1); }, true}, {"put(bool)", [](M::Engine& e, const std::string& n) { e.put(n, true); }, true}, {"put(string)", [](M::Engine& e, const std::string& n) { e.put(n, std::string("t")); }, true}, {"putEigen", [](M::Engine& e, const std::string& n) { e.putEigen(n, Eigen::Vector2d(1, 2)); }, true},
    {"get(double)", [](M::Engine& e, const std::string& n) { double d; e.get(n, d); }, true}, {"get(bool)", [](M::Engine& e, const std::string& n) { bool d; e.get(n, d); }, true}, {"get(string)", [](M::Engine& e, const std::string& n) { std::string d; e.get(n, d); }, true}, {"getEigen", [](M::Engine& e, const std::string& n) { MatrixXd d; e.getEigen(n, d); }, true},
    {"executeCommand", [](M::Engine& e, const std::string&) { e.executeCommand("x"); }, false}, {"changeWorkingDirectory", [](M::Engine& e, const std::string& n) { e.changeWorkingDirectory(n); }, false},
  };
  const char* how[] = {"default constructed", "constructed with false", "stopped", "constructed while MATLAB cannot start", "initialized while MATLAB cannot start"};
  for (int h = 0; h < 5; ++h) for (auto& o : ops) for (int twice = 0; twice < 2; ++twice) {
    c.cur("%s by an engine %s%s", o.name, how[h], twice ? ", twice, and started afterwards" : ""); mxstub::reset(); mxstub::set("v", text("old")); world().openFails = h >= 3;
    { std::unique_ptr<M::Engine> e(h == 0 || h == 4 ? new M::Engine() : new M::Engine(h != 1)); if (h == 2) c.check(e->stop(), "stop", "failed"); if (h == 4) c.check(!e->initialize(), "initialize-failed", "reported success"); c.check(!e->isInitialized() && !e->good(), "not-initialized", "claims to be initialized or good");
      mxstub::set("v", text("old")); for (int i = 0; i <= twice; ++i) { std::string x = outcome([&] { o.f(*e, "v"); }); c.check(x == "NotInitialized", "uninitialized", ex(x)); invariant(c, o.name); c.check(world().gets == 0 && world().commands.empty() && world().vars.size() == 1, "uninitialized-effect", "MATLAB was used"); }
      if (twice) { world().openFails = false; c.check(e->initialize() && e->isInitialized() && e->initialize(), "initialize-again", "failed"); std::string x = outcome([&] { e->exists("v"); }); c.check(x.empty(), "initialize-again", x); } c.transition(); }
    closed(c, (h == 2) + twice); c.trace();
  }
  // characters outside of letters, digits and _, and a digit at the front
  std::vector<std::string> bad; for (int ch = 1; ch < 256; ++ch) if (!isalnum(ch) && ch != '_') { std::string s(1, (char)ch); bad.push_back(s); bad.push_back("a" + s); bad.push_back(s + "b"); bad.push_back("a" + s + "b"); }
  for (int d = '0'; d <= '9'; ++d) { bad.push_back(std::string(1, d)); bad.push_back(std::string(1, d) + "a"); bad.push_back(std::string(1, d) + "_"); }
  bad.push_back(std::string("a\0b", 3)); bad.push_back(std::string("\0", 1));
  mxstub::reset(); { M::Engine e(true); for (auto& n : bad) for (auto& o : ops) if (o.named) { c.cur("%s with the name %s", o.name, vf::quote(n).c_str()); std::string x = outcome([&] { o.f(e, n); }); c.check(x == "InvalidVariableName", "invalid-name", ex(x)); invariant(c, o.name); c.check(world().gets == 0 && world().vars.empty(), "invalid-name-effect", "MATLAB was used"); c.eval(); c.transition(); } } closed(c, 1);
  std::vector<std::string> good; for (int ch = 'a'; ch <= 'z'; ++ch) { good.push_back(std::string(1, ch)); good.push_back(std::string(1, toupper(ch))); good.push_back("x" + std::string(1, ch)); good.push_back("x" + std::string(1, toupper(ch))); } for (int d = '0'; d <= '9'; ++d) good.push_back("x" + std::string(1, d)); good.push_back("x_"); good.push_back("A_1b_2"); good.push_back(std::string(63, 'n'));
  mxstub::reset(); { M::Engine e(true); for (auto& n : good) { c.cur("the name %s", n.c_str()); for (auto& o : ops) if (o.named && !strncmp(o.name, "put", 3)) { std::string x = outcome([&] { o.f(e, n); }); c.check(x.empty(), "valid-name", ex(x)); invariant(c, o.name); c.check(world().vars.count(n) == 1, "valid-name-effect", "not stored under its name"); c.transition(); } c.check(e.exists(n), "valid-name-exists", "does not exist"); c.eval(); } } closed(c, 1);
  c.sample("getEigen with the name \"a-b\": InvalidVariableNameException, MATLAB not asked");
}
// All sequences of operations against a model: a MATLAB that runs or not, two variables, switches of what fails.
VF_PART(A01_sequences, 8) {
  enum { START, STOP, OPENF, CLOSEF, PUTF, EVALF, PUTD, PUTS, PUTE, GETD, GETS, GETE, EXEC, TEST, N };
  const char* nm[] = {"initialize", "stop", "starting fails from now on / again works", "closing ...", "putting ...", "executing ...", "put(a, 1.5)", "put(a, \"t\")", "putEigen(b, [1 2])", "get(a, double)", "get(a, string)", "getEigen(b)", "executeCommand", "isScalar(a)"};
  int depth = c.thorough ? 6 : 5; long total = 1; for (int i = 0; i < depth; ++i) total *= N;
  for (long code = 0; code < total; ++code) {
    if (!c.mine(code / N)) continue;
    int op[8]; { long x = code; for (int i = depth - 1; i >= 0; --i) { op[i] = x % N; x /= N; } }
    std::string label; for (int i = 0; i < depth; ++i) label += std::string(i ? "; " : "") + nm[op[i]]; c.cur(label);
    mxstub::reset(); world().eval = [](const std::string& s) { return "[" + s + "]\n"; };
    long starts = 0;
    { M::Engine e; bool run = false; int a = 0, b = 0; bool of = false, cf = false, pf = false, ef = false; size_t cmds = 0;  // a: 0 missing 1 number 2 text
      for (int i = 0; i < depth; ++i) {
        std::string o, want; bool r = false;
        switch (op[i]) {
          case START: o = outcome([&] { r = e.initialize(); }); if (!run && !of) { run = true; ++starts; } c.check(o.empty() && r == run, "initialize-result", ex(o)); break;
          case STOP: o = outcome([&] { r = e.stop(); }); c.check(o.empty() && r == (!run || !cf), "stop-result", ex(o)); if (run) a = b = 0; run = false; break;
          case OPENF: world().openFails = of = !of; break; case CLOSEF: world().closeFails = cf = !cf; break; case PUTF: world().putFails = pf = !pf; break; case EVALF: world().evalFails = ef = !ef; break;
          case PUTD: o = outcome([&] { e.put("a", 1.5); }); want = !run ? "NotInitialized" : pf ? "Put" : ""; if (want.empty()) a = 1; c.check(o == want, "put-outcome", ex(o)); break;
          case PUTS: o = outcome([&] { e.put("a", std::string("t")); }); want = !run ? "NotInitialized" : pf ? "Put" : ""; if (want.empty()) a = 2; c.check(o == want, "put-outcome", ex(o)); break;
          case PUTE: o = outcome([&] { e.putEigen("b", Eigen::RowVector2d(1, 2)); }); want = !run ? "NotInitialized" : pf ? "Put" : ""; if (want.empty()) b = 1; c.check(o == want, "put-outcome", ex(o)); break;
          case GETD: { double d = 7; o = outcome([&] { r = e.get("a", d); }); want = !run ? "NotInitialized" : a == 2 ? "InvalidType" : ""; c.check(o == want && (!want.empty() || r == (a == 1)) && d == (run && a == 1 ? 1.5 : 7), "get-outcome", ex(o) + " " + vf::str(d)); break; }
          case GETS: { std::string s = "7"; o = outcome([&] { r = e.get("a", s); }); want = !run ? "NotInitialized" : a == 1 ? "InvalidType" : ""; c.check(o == want && (!want.empty() || r == (a == 2)) && s == (run && a == 2 ? "t" : "7"), "get-outcome", ex(o) + " " + s); break; }
          case GETE: { MatrixXd m = sentinel(); o = outcome([&] { r = e.getEigen("b", m); }); want = !run ? "NotInitialized" : ""; c.check(o == want && (!want.empty() || r == (b == 1)) && bits(m, run && b ? MatrixXd(Eigen::RowVector2d(1, 2)) : sentinel()), "get-outcome", ex(o)); break; }
          case EXEC: { std::string s; const std::string z = "z" + vf::str(i); o = outcome([&] { s = e.executeCommand(z); }); want = !run ? "NotInitialized" : ef ? "Execution" : ""; if (want.empty()) ++cmds; c.check(o == want && s == (want.empty() ? "[" + z + "]" : ""), "execute-outcome", ex(o) + " " + s); break; }
          case TEST: o = outcome([&] { r = e.isScalar("a"); }); want = !run ? "NotInitialized" : !a ? "NoSuchVariable" : ""; c.check(o == want && (!want.empty() || r), "tester-outcome", ex(o)); break;
        }
        invariant(c, nm[op[i]]); c.check(e.isInitialized() == run, "initialized", run ? "false while MATLAB runs" : "true while MATLAB does not run"); c.check(world().opened == starts && world().opened - world().closed == (run ? 1 : 0) && world().commands.size() == cmds, "engine-count", nm[op[i]]); c.transition();
        char st[64]; snprintf(st, sizeof st, "%d%d%d%d%d%d%d", run, a, b, of, cf, pf, ef); c.state(st);
      }
    }
    closed(c, starts); c.trace();
  }
  if (c.shard == 0) c.sample("initialize; put(a, \"t\"); putting fails; put(a, 1.5): EnginePutException; get(a, string): \"t\"; ~Engine: closed once, nothing left");
}
VF_PART(A01_commands, 1) {
  std::vector<std::string> outs; for (size_t n : {0, 1, 2, 5, 254, 255, 256}) for (int nl = 0; nl < 4; ++nl) { std::string s(n, 'o'); if (nl & 1) { if (s.empty()) continue; s[s.size() - 1] = '\n'; } if (nl & 2) { if (s.size() < 2) continue; s[s.size() - 2] = '\n'; } if (s.size() <= 255) outs.push_back(s); } outs.push_back("a\nb\n"); outs.push_back("\n\n");
  for (auto& a : outs) for (auto& b : outs) { c.cur("two commands with outputs of %zu and %zu characters (%s, %s)", a.size(), b.size(), vf::quote(a.substr(a.size() > 3 ? a.size() - 3 : 0)).c_str(), vf::quote(b.substr(b.size() > 3 ? b.size() - 3 : 0)).c_str()); mxstub::reset(); world().eval = [&](const std::string& s) { return s == "first" ? a : b; };
    { M::Engine e(true); auto strip = [](std::string s) { if (!s.empty() && s[s.size() - 1] == '\n') s.resize(s.size() - 1); return s; }; for (int i = 0; i < 4; ++i) { std::string g, o; bool first = i == 0 || i == 3; if (i == 2) { world().evalFails = true; o = outcome([&] { g = e.executeCommand("x"); }); c.check(o == "Execution", "execute-failed", ex(o)); world().evalFails = false; continue; } o = outcome([&] { g = e.executeCommand(first ? "first" : "second"); }); c.check(o.empty() && g == strip(first ? a : b), "output", ex(o) + " " + std::to_string(g.size()) + " characters"); c.transition(); } std::vector<std::string> w = {"first", "second", "first"}; c.check(world().commands == w, "commands", "other commands reached MATLAB"); }
    closed(c, 1); c.trace(); }
  // longer outputs: the front of them, never more than was written
  for (size_t n : {256, 257, 300, 5000}) for (int i = 0; i < 2; ++i) { c.cur("an output of %zu characters", n); mxstub::reset(); std::string full(n, 'q'); world().eval = [&](const std::string& s) { return s == "short" ? std::string("ok") : full; }; { M::Engine e(true); std::string g = e.executeCommand("long"); c.check(g.size() <= full.size() && full.compare(0, g.size(), g) == 0 && g.size() >= 255, "long-output", std::to_string(g.size()) + " characters that are not its front"); if (i) c.check(e.executeCommand("short") == "ok", "output-after-long", "wrong"); } closed(c, 1); c.trace(); }
  // good() tells whether MATLAB answers
  for (int f = 0; f < 3; ++f) { c.cur("good(), %s", f == 0 ? "MATLAB answers" : f == 1 ? "executing fails" : "MATLAB says something else"); mxstub::reset(); world().eval = [&](const std::string& s) { return f == 2 ? std::string("?") : s.find("sm::Matlab Engine-Test") != std::string::npos ? std::string(">> sm::Matlab Engine-Test\n") : std::string(); }; world().evalFails = f == 1; { M::Engine e(true); bool g = true; std::string o = outcome([&] { g = e.good(); }); c.check(o.empty() && g == (f == 0), "good", ex(o)); } closed(c, 1); c.trace(); }
  for (const char* d : {"/tmp", "a b", ".", "C:\\x"}) { c.cur("changeWorkingDirectory to %s", d); mxstub::reset(); { M::Engine e(true); std::string o = outcome([&] { e.changeWorkingDirectory(d); }); c.check(o.empty() && world().commands.size() == 1 && world().commands[0].find("cd") == 0 && world().commands[0].find("'" + std::string(d) + "'") != std::string::npos, "cd", o); } closed(c, 1); c.trace(); }
  // the command line: every list of up to three lines
  const char* L[] = {"x=1", "quit", "exit", "", " quit", "quit;", "disp('quit')", "y"}; const int nl = 8;
  for (int n = 0; n <= 3; ++n) { long tot = 1; for (int i = 0; i < n; ++i) tot *= nl; for (long k = 0; k < tot; ++k) for (int eol = 0; eol < (n ? 2 : 1); ++eol) {
    std::vector<std::string> in, want; std::string data; long x = k; bool stop = false; for (int i = 0; i < n; ++i) { in.push_back(L[x % nl]); x /= nl; data += in.back() + (i < n - 1 || eol ? "\n" : ""); }
    for (int i = 0; i < n && !stop; ++i) { if (in[i] == "quit" || in[i] == "exit") stop = true; else if (!(i == n - 1 && !eol && in[i].empty())) want.push_back(in[i]); }
    c.cur("command line with the input %s", vf::quote(data).c_str()); mxstub::reset(); world().eval = [](const std::string& s) { return "<" + s + ">\n"; };
    std::string file = c.scratch() + "/in"; FILE* f = fopen(file.c_str(), "w"); fwrite(data.data(), 1, data.size(), f); fclose(f); f = fopen(file.c_str(), "r"); FILE* old = stdin; stdin = f; std::ostringstream out; std::streambuf* ob = std::cout.rdbuf(out.rdbuf());
    std::string o; { M::Engine e(true); o = outcome([&] { e.openCommandLine(); }); } stdin = old; std::cout.rdbuf(ob); fclose(f); closed(c, 1); c.trace();
    c.check(o.empty() && world().commands == want, "command-line", ex(o) + ": " + std::to_string(world().commands.size()) + " commands of " + std::to_string(want.size())); std::string text = out.str(); size_t at = 0; for (auto& w : want) { size_t p = text.find("<" + w + ">", at); c.check(p != std::string::npos, "command-line-output", "the output of " + w + " is missing"); if (p == std::string::npos) break; at = p + 1; }
  } }
  c.sample("command line with the input x=1, an empty line and y without a line break: three commands; with quit between them: one");
}
