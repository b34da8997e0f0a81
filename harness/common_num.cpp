// C04 numeric helpers.
#include "vf.hpp"
#include "fresh.hpp"
#include <algorithm>
#include <array>
#include <limits>
#include <sm/maths.hpp>
#include <sm/numerical_comparisons.hpp>
#include <sm/round.hpp>
using namespace sm;
// ------------------------------------------------------------------- C04
VF_PART(C04_quadratic, 4) {
  int N = c.thorough ? 40 : 16; uint64_t n = 0;
  auto one = [&](double a, double b, double cc) {
    c.cur("%.17g x^2 + %.17g x + %.17g", a, b, cc);
    long double A = a, B = b, C = cc, D = B * B - 4 * A * C; bool threw = false, other = false; std::pair<double, double> r;
    try { r = solveQuadratic(a, b, cc); } catch (const std::runtime_error&) { threw = true; } catch (...) { other = true; }
    c.check(!other, "exception", "throws something that is no runtime_error");
    if (D < 0) c.check(threw, "imaginary", "no exception although there is no real root");
    else if (threw) c.failpl("real", "an exception although the roots are real");
    else {
      long double s = sqrtl(D), q = B < 0 ? (-B + s) / 2 : (-B - s) / 2, x = q / A, y = q == 0 ? 0 : C / q;
      if (x > y) std::swap(x, y); double u = std::min(r.first, r.second), w = std::max(r.first, r.second);
      auto near = [](long double p, double e) { return fabsl(p - e) <= 1e-14L * fabsl(p); };
      if (!(near(x, u) && near(y, w))) c.fail("roots", "roots %.17g, %.17g instead of %.17Lg, %.17Lg", r.first, r.second, x, y);
    }
    c.eval(D >= 0);
  };
  for (int a = -N; a <= N; ++a) for (int b = -N; b <= N; ++b) for (int k = -N; k <= N; ++k) { if (!a || !c.mine(n++)) continue; one(a, b, k); }
  // very different magnitudes: powers of two, discriminant far from zero or exact
  for (int ea = -12; ea <= 12; ea += 4) for (int ec = -12; ec <= 12; ec += 4) for (int eb = -8; eb <= 28; eb += 3) for (int s = 0; s < 8; ++s) for (double m : {1.0, 1.25}) {
    if (!c.mine(n++)) continue; double a = std::ldexp(s & 1 ? -1 : 1, ea), b = std::ldexp(s & 2 ? -m : m, eb), k = std::ldexp(s & 4 ? -1 : 1, ec);
    one(a, b, k);
  }
  // and as far as squares and products stay normal numbers
  std::vector<int> es; for (int e : {0, 7, 30, 41, 66, 133, 200, 333, 400, 480}) { es.push_back(e); if (e) es.push_back(-e); }
  for (int ea : es) for (int ec : es) for (int eb : es) for (int s = 0; s < 8; ++s) for (double m : {1.0, 1.25}) {
    if (!c.mine(n++) || std::abs(eb) > 480 || std::abs(ea + ec) > 960 || std::abs(eb - ea) > 900 || std::abs(ec - eb) > 900 || std::abs((ea + ec) / 2 - ea) > 900) continue;
    one(std::ldexp(s & 1 ? -1 : 1, ea), std::ldexp(s & 2 ? -m : m, eb), std::ldexp(s & 4 ? -1 : 1, ec));
  }
  c.sample("x^2 + 268435456 x + 1: the small root is exact to 1e-14");
}
namespace { template <class T> void signs(vf::Ctx& c, const char* name, std::vector<T> g) { for (T x : g) { c.cur("sgn of %s %s", name, vf::str(x).c_str()); c.check(sgn(x) == (x > T(0) ? 1 : x < T(0) ? -1 : 0), "sgn", "sgn gives " + vf::str(sgn(x))); c.eval(x != T(0)); } } }
VF_PART(C04_sign_and_rounding) {
  typedef std::numeric_limits<double> dl;
  signs<double>(c, "double", {0.0, -0.0, 5e-324, -5e-324, 1, -1, 0.3, -0.3, dl::max(), -dl::max(), dl::infinity(), -dl::infinity()});
  signs<float>(c, "float", {0.0f, -0.0f, 1e-45f, -1e-45f, 0.5f, -0.5f, 3e38f, -3e38f});
  signs<int>(c, "int", {0, 1, -1, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()});
  signs<long>(c, "long", {0, 1, -1, 4294967296L, -4294967296L, std::numeric_limits<long>::max(), std::numeric_limits<long>::min()});
  signs<unsigned>(c, "unsigned", {0u, 1u, 4294967295u}); signs<signed char>(c, "char", {0, 1, -1, 127, -128}); signs<uint64_t>(c, "uint64", {0, 1, ~0ull});
  std::set<double> g; std::set<float> f;
  for (int k = -40; k <= 40; ++k) for (double h : {0.0, 0.5}) { double x = k + h; for (int d = -3; d <= 3; ++d) { double y = x; float z = x; for (int i = 0; i < std::abs(d); ++i) { y = std::nextafter(y, d < 0 ? -1e300 : 1e300); z = std::nextafter(z, d < 0 ? -1e30f : 1e30f); } g.insert(y); f.insert(z); } }
  for (int b = 0; b < 62; ++b) for (double h : {-1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5}) for (int s : {-1, 1}) { double x = s * (std::ldexp(1.0, b) + h); g.insert(x); float z = s * (std::ldexp(1.0f, b) + (float)h); f.insert(z); }
  for (double x : g) {
    double i, fr = std::modf(x, &i), e = std::fabs(fr) >= 0.5 ? i + (x < 0 ? -1 : 1) : i;
    c.cur("round %.17g", x); c.check(sm::round(x) == e, "round", "gives " + vf::str(sm::round(x)));
    if (std::fabs(e) < 2147483000.0) c.check(sm::rint(x) == (int)e, "rint", "gives " + vf::str(sm::rint(x)));
    if (std::fabs(e) < 9.2e18) c.check(sm::lrint(x) == (long)e, "lrint", "gives " + vf::str(sm::lrint(x)));
    c.eval(fr != 0);
  }
  for (float x : f) {
    float i, fr = std::modf(x, &i), e = std::fabs(fr) >= 0.5f ? i + (x < 0 ? -1 : 1) : i;
    c.cur("round float %.9g", x); c.check(sm::round(x) == e, "round", "gives " + vf::str(sm::round(x)));
    if (std::fabs(e) < 2147483000.0f) c.check(sm::rint(x) == (int)e, "rint", "gives " + vf::str(sm::rint(x)));
    if (std::fabs(e) < 9.2e18f) c.check(sm::lrint(x) == (long)e, "lrint", "gives " + vf::str(sm::lrint(x)));
    c.eval(fr != 0);
  }
  c.sample("round 0.49999999999999994 gives 0");
}
namespace {
template <class T> void compare(vf::Ctx& c, const char* name) {
  typedef std::numeric_limits<T> L; std::vector<T> g = {0, -T(0), L::denorm_min(), L::min(), T(1e-3), T(0.1), T(0.5), 1, T(1) + L::epsilon(), T(1) - L::epsilon() / 2, T(1) + 2 * L::epsilon(), T(1) - L::epsilon(), T(1.5), 2, 3, 998, 999, 1000, 1001, T(1e10), L::max() / 4, L::max() / 2, 2 - L::epsilon(), T(1) / 3, T(7) / 3};
  size_t k = g.size(); for (size_t i = 0; i < k; ++i) g.push_back(-g[i]);
  std::vector<T> eps = {L::epsilon(), T(1e-6), T(1e-3), T(0.25), 1, 2, 0, T(-0.1), -L::epsilon()};
  for (T a : g) for (T b : g) for (T e : eps) {
    c.cur("%s %.17g and %.17g with %.17g", name, (double)a, (double)b, (double)e);
    bool q[3]; int thrown = 0;
    for (int m = 0; m < 3; ++m) try { q[m] = m == 0 ? approximatelyEqual(a, b, e) : m == 1 ? definitelyGreaterThan(a, b, e) : definitelyLessThan(a, b, e); } catch (const std::invalid_argument&) { ++thrown; }
    if (!(e > 0)) { c.check(thrown == 3, "epsilon", "an epsilon that is not positive is accepted"); c.eval(); continue; }
    c.check(thrown == 0, "epsilon", "a positive epsilon is refused"); if (thrown) continue;
    c.check(q[0] + q[1] + q[2] == 1, "trichotomy", vf::str(q[0]) + vf::str(q[1]) + vf::str(q[2]));
    c.check(approximatelyEqual(b, a, e) == q[0] && definitelyGreaterThan(b, a, e) == q[2] && definitelyLessThan(b, a, e) == q[1], "symmetry", "the answer changes with the order of the arguments");
    c.check(!(a <= b && q[1]) && !(a >= b && q[2]) && (a != b || q[0]), "order", "contradicts the exact comparison");
    long double d = fabsl((long double)a - b), m = std::max(fabsl((long double)a), fabsl((long double)b)) * (long double)e;
    if (d > m * (1 + 8 * (long double)L::epsilon()) + L::denorm_min()) c.check(!q[0], "relative", "equal although they differ by more than epsilon");
    if (d < m * (1 - 8 * (long double)L::epsilon()) - L::denorm_min()) c.check(q[0], "relative", "not equal although they differ by less than epsilon");
    if (e == L::epsilon()) c.check(approximatelyEqual(a, b) == q[0] && definitelyGreaterThan(a, b) == q[1] && definitelyLessThan(a, b) == q[2], "default", "the default epsilon is another one");
    c.eval(a != b);
  }
}
}
VF_PART(C04_comparisons, 3) { if (c.mine(0)) compare<double>(c, "double"); if (c.mine(1)) compare<float>(c, "float"); if (c.mine(2)) compare<long double>(c, "long double"); c.sample("double 1000 and 999 with 0.001: equal"); }
// results that depend on earlier calls
VF_PART(C04_calls, 2) {
  std::vector<vf::Pure> P; static const double D[] = {0, -0.0, 0.5, -0.5, 1, -1, 1.5, 2.5, -2.5, 1e-9, 3.0000001, 3, 1e9, -1e9, 0.49999999999999994, -0.25}; auto one = [](size_t i) { return vf::str(D[i]); }; auto two = [](size_t i) { return vf::str(D[i / 16]) + " and " + vf::str(D[i % 16]); };
  static std::vector<std::array<double, 3>> Q; for (int a = -2; a <= 2; ++a) for (int b = -3; b <= 3; b += 1) for (int k = -2; k <= 2; ++k) if (a) Q.push_back({{(double)a, (double)b, (double)k}});
  P.push_back({"solveQuadratic", Q.size(), [](size_t i) { std::string s; try { auto r = solveQuadratic(Q[i][0], Q[i][1], Q[i][2]); vf::put(s, r.first); vf::put(s, r.second); } catch (const std::runtime_error& e) { s = "no roots"; } return s; }, [](size_t i) { return vf::str(Q[i][0]) + "," + vf::str(Q[i][1]) + "," + vf::str(Q[i][2]); }});
  P.push_back({"sgn", 16, [](size_t i) { return vf::str(sgn(D[i])) + vf::str(sgn((float)D[i])) + vf::str(sgn((int)D[i])); }, one}); P.push_back({"round", 16, [](size_t i) { return vf::str(sm::round(D[i])) + "," + vf::str(sm::round((float)D[i])); }, one}); P.push_back({"rint", 16, [](size_t i) { return vf::str(sm::rint(D[i])) + "," + vf::str(sm::rint((float)D[i])); }, one}); P.push_back({"lrint", 16, [](size_t i) { return vf::str(sm::lrint(D[i])) + "," + vf::str(sm::lrint((float)D[i])); }, one});
  for (double e : {1e-12, 1e-6, 0.5}) { P.push_back({"comparisons with " + vf::str(e), 256, [e](size_t i) { double a = D[i / 16], b = D[i % 16]; return vf::str(approximatelyEqual(a, b, e)) + vf::str(definitelyGreaterThan(a, b, e)) + vf::str(definitelyLessThan(a, b, e)); }, two}); }
  P.push_back({"comparisons", 256, [](size_t i) { double a = D[i / 16], b = D[i % 16]; return vf::str(approximatelyEqual(a, b)) + vf::str(definitelyGreaterThan(a, b)) + vf::str(definitelyLessThan(a, b)) + vf::str(approximatelyEqual((float)a, (float)b)); }, two});
  vf::pure(c, P); c.sample("solveQuadratic of 1,-3,2 after 1,-3,1");
}
