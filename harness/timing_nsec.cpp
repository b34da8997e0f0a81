// T03 nanosecond time.
#include "vf.hpp"
#include "fresh.hpp"
#include <limits>
#include <sm/timing/NsecTimeUtilities.hpp>
using namespace sm::timing;
// ------------------------------------------------------------------- T03
namespace {
std::vector<int64_t> nsgrid() {
  std::set<int64_t> v; const int64_t M = std::numeric_limits<int64_t>::max();
  for (int b = 0; b < 63; ++b) for (int d = -2; d <= 2; ++d) { int64_t x = (int64_t(1) << b) + d; v.insert(x); v.insert(-x); }
  int64_t p = 1; for (int i = 0; i < 18; ++i) { for (int k = 1; k < 10; ++k) for (int d = -1; d <= 1; ++d) { v.insert(p * k + d); v.insert(-(p * k + d)); } p *= 10; }
  for (int64_t e = 1500000000000000000LL; e < 1500000000000000000LL + 20; ++e) v.insert(e);
  v.insert(M); v.insert(-M); v.insert(-M - 1); v.insert(M - 1);
  return std::vector<int64_t>(v.begin(), v.end());
}
}
VF_PART(T03_nanoseconds) {
  std::vector<int64_t> g = nsgrid(); const int64_t M = std::numeric_limits<int64_t>::max();
  double prevs = -1e300; int64_t prevn = -M - 1; bool first = true;
  for (int64_t x : g) {
    c.cur("%lld ns", (long long)x);
    c.check(chronoToNsec(nsecToChrono(x)) == x, "chrono", "round trip through chrono gives " + vf::str(chronoToNsec(nsecToChrono(x))));
    c.check(nsecToChrono(x).time_since_epoch() == std::chrono::nanoseconds(x), "chrono", "wrong time point");
    c.check(isValid(x) == (x != getInvalidTime()), "valid", std::string("isValid says ") + (isValid(x) ? "valid" : "invalid"));
    c.check(isValid(x) == (x != -M - 1), "valid", "only the smallest value is invalid");
    double s = nsecToSec(x); long double e = (long double)x / 1e9L;
    c.check(std::fabs((double)(s - e)) <= 4.5e-16L * std::fabs((double)e), "seconds", vf::str(x) + " ns gives " + vf::str(s) + " s");
    c.check(s >= prevs, "seconds", "not monotonic"); prevs = s;
    if (std::fabs(s) < 9.2e9) {
      int64_t n = secToNsec(s);
      c.check(std::fabs((long double)n - (long double)x) <= 1 + 4.5e-16L * std::fabs((long double)x), "nanoseconds", vf::str(x) + " ns comes back as " + vf::str(n));
      if (!first) c.check(n >= prevn, "nanoseconds", "not monotonic");
      prevn = n; first = false;
    }
    c.eval(x != 0);
  }
  c.sample("-9223372036854775808 ns: the invalid time");
}
VF_PART(T03_now) {
  int64_t a = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
  int64_t b = nsecNow(); int64_t d = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
  c.cur("now"); c.check(a <= b && b <= d && isValid(b), "now", "nsecNow is not the system time"); c.eval();
}
// results that depend on earlier calls
VF_PART(T03_calls) {
  std::vector<vf::Pure> P; static const int64_t T[] = {0, 1, -1, 999, 1000, 1001, 999999999, 1000000000, 1000000001, -1000000000, 1500000000000000000LL, 1500000000000000001LL, 1500000000999999999LL, 1500000001000000000LL, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()}; auto show = [](size_t i) { return vf::str(T[i % 16]); };
  P.push_back({"chronoToNsec", 16, [](size_t i) { return vf::str(chronoToNsec(nsecToChrono(T[i]))); }, show}); P.push_back({"nsecToChrono", 16, [](size_t i) { return vf::str(nsecToChrono(T[i]).time_since_epoch().count()); }, show}); P.push_back({"isValid", 16, [](size_t i) { return vf::str(isValid(T[i])); }, show}); P.push_back({"nsecToSec", 16, [](size_t i) { return vf::str(nsecToSec(T[i])); }, show});
  P.push_back({"secToNsec", 60, [](size_t i) { return vf::str(secToNsec(((int)(i / 4) - 7) + (i % 4) * 0.25e-6 * (i / 4 % 2 ? 1 : 1e6))); }, [](size_t i) { return "time " + vf::str(i); }});
  vf::pure(c, P); c.sample("secToNsec of time 5 after time 4");
}
