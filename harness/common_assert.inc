// C03, included by three files with different settings; MODE and DBG_ACTIVE are set there.
#include "vf.hpp"
#include <limits>
#include <sm/assert_macros.hpp>
#include <sm/assert_macros.hpp>
namespace {
SM_DEFINE_EXCEPTION(VError, std::runtime_error);
SM_DEFINE_EXCEPTION(VDerived, VError);
const double INF = std::numeric_limits<double>::infinity(), NAN_ = std::numeric_limits<double>::quiet_NaN();
int g_val, g_msg, g_line;
template <class T> const T& v(const T& t) { ++g_val; return t; }
int note() { ++g_msg; return 42; }
template <class T> std::string S(const T& t) { std::ostringstream o; o << t; return o.str(); }
struct Out { bool thrown = false; std::string type, what; };
template <class F> Out run(F f) {
  Out o; g_val = g_msg = 0;
  try { f(); }
  catch (const VDerived& e) { o.thrown = true; o.type = typeid(e) == typeid(VDerived) ? "VDerived" : "?"; o.what = e.what(); }
  catch (const VError& e) { o.thrown = true; o.type = typeid(e) == typeid(VError) ? "VError" : "?"; o.what = e.what(); }
  catch (const std::invalid_argument& e) { o.thrown = true; o.type = typeid(e) == typeid(std::invalid_argument) ? "std::invalid_argument" : "?"; o.what = e.what(); }
  catch (const std::exception& e) { o.thrown = true; o.type = typeid(e).name(); o.what = e.what(); }
  catch (...) { o.thrown = true; o.type = "something that is no exception"; }
  return o;
}
bool has(const std::string& s, const std::string& t) { return s.find(t) != std::string::npos; }
void judge(vf::Ctx& c, const char* macro, const Out& o, bool active, bool holds, const std::string& type, const std::string& rel, bool usesval = true) {
  bool want = active && !holds;
  if (o.thrown != want) { c.fail(macro, "%s %s", o.thrown ? "throws although it holds or is switched off:" : "does not throw", o.what.c_str()); return; }
  if (!want) {
    c.check(g_msg == 0, macro, "the message is evaluated although nothing is reported");
    if (!active) c.check(g_val == 0, macro, "an argument of a switched off assertion is evaluated");
    else if (usesval) c.check(g_val >= 1, macro, "the arguments are not evaluated");
  } else {
    c.check(o.type == type, macro, "throws " + o.type + " instead of " + type);
    c.check(g_msg == 1, macro, "the message is evaluated " + S(g_msg) + " times");
    c.check(has(o.what, "[" + type + "]"), macro, "the text does not name the exception: " + o.what);
    c.check(has(o.what, "note 42."), macro, "the text does not contain the message: " + o.what);
    c.check(has(o.what, std::string(__FILE__) + ":" + S(g_line) + ":"), macro, "the text does not give the position (line " + S(g_line) + "): " + o.what);
    c.check(has(o.what, rel), macro, "the text does not contain '" + rel + "': " + o.what);
  }
  c.eval(want);
}
// The macros are used inside lambdas, so the function name is operator().
#define RUN(STMT) run([&] { g_line = __LINE__; STMT; })
#define MSG "note " << note() << "."
#define BOTH(M, HOLDS, REL, ...)                                                                       \
  judge(c, "SM_ASSERT_" #M, RUN(SM_ASSERT_##M(VError, __VA_ARGS__, MSG)), true, HOLDS, "VError", REL);  \
  judge(c, "SM_ASSERT_" #M "_DBG", RUN(SM_ASSERT_##M##_DBG(VDerived, __VA_ARGS__, MSG)), DBG_ACTIVE, HOLDS, "VDerived", REL);
template <class T> void unary(vf::Ctx& c, const std::vector<T>& g) {
  for (T x : g) {
    c.cur(std::string(MODE ": value ") + S(x));
    BOTH(POSITIVE, x > 0, S(x) + " > 0", v(x));
    BOTH(NONNEGATIVE, x >= 0, S(x) + " >= 0", v(x));
    BOTH(NEGATIVE, x < 0, S(x) + " < 0", v(x));
    BOTH(NONPOSITIVE, x <= 0, S(x) + " <= 0", v(x));
    BOTH(ZERO, x == 0, S(x) + " == 0", v(x));
    BOTH(FINITE, std::isfinite((double)x), S(x), v(x));
    BOTH(NOTNAN, !std::isnan((double)x), "isnan", v(x));
  }
}
template <class T> void binary(vf::Ctx& c, const std::vector<T>& g) {
  for (T x : g) for (T y : g) {
    c.cur(std::string(MODE ": values ") + S(x) + ", " + S(y));
    BOTH(LT, x < y, S(x) + " < " + S(y), v(x), v(y));
    BOTH(LE, x <= y, S(x) + " <= " + S(y), v(x), v(y));
    BOTH(GT, x > y, S(x) + " > " + S(y), v(x), v(y));
    BOTH(GE, x >= y, S(x) + " >= " + S(y), v(x), v(y));
    BOTH(EQ, x == y, S(x) + " == " + S(y), v(x), v(y));
    BOTH(NE, !(x == y), S(x) + " != " + S(y), v(x), v(y));
  }
}
template <class T> void ternary(vf::Ctx& c, const std::vector<T>& g) {
  for (T x : g) for (T lo : g) for (T hi : g) {
    c.cur(std::string(MODE ": value ") + S(x) + " bounds " + S(lo) + ", " + S(hi));
    BOTH(GE_LT, lo <= x && x < hi, S(lo) + " <= " + S(x) + " < " + S(hi), v(x), v(lo), v(hi));
    BOTH(GT_LE, lo < x && x <= hi, S(lo) + " < " + S(x) + " <= " + S(hi), v(x), v(lo), v(hi));
    BOTH(GE_LE, lo <= x && x <= hi, S(lo) + " <= " + S(x) + " <= " + S(hi), v(x), v(lo), v(hi));
    BOTH(NEAR, std::fabs((double)lo - (double)x) <= std::fabs((double)hi), S(x) + " == " + S(lo), v(x), v(lo), v(hi));
  }
}
void others(vf::Ctx& c) {
  std::vector<int> b = {0, 1, 2};
  int obj = 0; int* ps[2] = {nullptr, &obj};
  for (int x : b) for (int y : b) {
    c.cur(MODE ": conditions %d %d", x, y);
    BOTH(TRUE, x, "v(x)", v(x));
    BOTH(FALSE, !x, "v(x)", v(x));
    BOTH(TRUE, x || y, "failed", v(x) || v(y));
    BOTH(FALSE, !(x || y), "failed", v(x) || v(y));
    BOTH(TRUE, x == 1 ? y : !y, "failed", v(x) == 1 ? v(y) : !v(y));
    BOTH(FALSE, !(x == 1 ? y : !y), "failed", v(x) == 1 ? v(y) : !v(y));
    BOTH(LT, (x & y) < 1, "failed", v(x) & v(y), 1);
    BOTH(GE, (x | y) >= (x ^ y), "failed", v(x) | v(y), v(x) ^ v(y));
    BOTH(EQ, (x & y) == (y ? x : 2), "failed", v(x) & v(y), v(y) ? v(x) : 2);
    BOTH(NE, (x & y) != (y ? x : 2), "failed", v(x) & v(y), v(y) ? v(x) : 2);
  }
  for (int* p : ps) for (int* q : ps) for (bool s : {false, true}) {
    c.cur(MODE ": pointers %d %d %d", p != 0, q != 0, s);
    BOTH(NOTNULL, p != nullptr, "NULL", v(p));
    BOTH(NOTNULL, (s ? p : q) != nullptr, "NULL", v(s) ? v(p) : v(q));
    judge(c, "SM_ASSERT_NULL", RUN(SM_ASSERT_NULL(VError, v(p), MSG)), true, p == nullptr, "VError", "NULL");
    judge(c, "SM_ASSERT_NULL", RUN(SM_ASSERT_NULL(VError, v(s) ? v(p) : v(q), MSG)), true, (s ? p : q) == nullptr, "VError", "NULL");
  }
  c.cur(MODE ": throwing");
  judge(c, "SM_THROW", RUN(SM_THROW(std::invalid_argument, MSG)), true, false, "std::invalid_argument", "note", false);
  judge(c, "SM_THROW_DBG", RUN(SM_THROW_DBG(VError, MSG)), DBG_ACTIVE, false, "VError", "note", false);
  judge(c, "SM_THROW_SFP", RUN(SM_THROW_SFP(VDerived, sm::source_file_pos("f", __FILE__, g_line), MSG)), true, false, "VDerived", "f()", false);
  for (bool ok : {true, false}) {
    Out o = RUN(sm::sm_assert_throw<VError>(ok, "note 42.", SM_SOURCE_FILE_POS));
    c.check(o.thrown == !ok && (ok || (o.type == "VError" && has(o.what, "note 42.") && has(o.what, S(g_line)))), "sm_assert_throw", o.what); c.eval(!ok);
  }
  // a macro is one statement, usable in the branches of a condition with braces and in loops
  int reached = 0;
  for (int i = 0; i < 3; ++i) { if (i == 1) { SM_ASSERT_EQ(VError, i, 1, "m"); SM_ASSERT_LT_DBG(VError, i, 2, "m"); } else ++reached; }
  c.check(reached == 2, "flow", "a passing assertion changed the control flow");
}
}  // namespace
#define PART2(name, n) VF_PART(name, n)
PART2(PART, 4) {
  std::vector<double> d = {-INF, -1.5, -5e-324, -0.0, 0.0, 2.25, INF, NAN_};
  std::vector<int> i = {std::numeric_limits<int>::min(), -1, 0, 1, 7};
  std::vector<float> f = {-1.0f, 0.0f, 1.0f, (float)INF, (float)NAN_};
  std::vector<std::string> s = {"", "a", "b"};
  std::vector<unsigned> u = {0u, 1u, 4000000000u};
  if (c.mine(0)) { unary(c, d); unary(c, i); unary(c, f); binary(c, d); binary(c, i); binary(c, f); binary(c, s); binary(c, u); others(c); }
  if (c.mine(1)) ternary(c, d);
  if (c.mine(2)) ternary(c, f);
  if (c.mine(3)) { std::vector<int> j = {-3, -1, 0, 1, 7}; ternary(c, j); }
  c.sample(MODE ": SM_ASSERT_GE_LT of nan in [0, 2.25) throws");
}
