// R01 random numbers.
#include "vf.hpp"
#include <Eigen/Core>
#include <algorithm>
#include <limits>
#include <sm/random.hpp>
#include <sm/eigen/random.hpp>
namespace {
namespace r = sm::random;
typedef std::vector<double> VD;
const int NOP = 9;
void op(int o, VD& out) {
  switch (o) {
    case 0: out.push_back(r::uniform()); break;
    case 1: out.push_back(r::normal()); break;
    case 2: out.push_back(r::rand()); break;
    case 3: out.push_back(r::randn()); break;
    case 4: out.push_back(r::randLU(-2.5, 4)); break;
    case 5: out.push_back(r::randLUi(-3, 5)); break;
    case 6: { Eigen::VectorXd v = sm::eigen::randn(3); out.insert(out.end(), v.data(), v.data() + 3); } break;
    case 7: out.push_back(r::randLUi(std::numeric_limits<int>::min(), std::numeric_limits<int>::max())); break;
    case 8: { Eigen::VectorXd v = sm::eigen::randn(0); out.push_back(v.size()); } break;
  }
}
bool range(int o, double x) {
  switch (o) { case 0: case 2: return x >= 0 && x < 1; case 1: case 3: case 6: return std::fabs(x) < 40; case 4: return x >= -2.5 && x < 4; case 5: return x >= -3 && x < 5 && x == std::floor(x); case 7: return x >= -2147483648.0 && x < 2147483647.0 && x == std::floor(x); default: return x == 0; }
}
}
// every history of draws before seeding, every word of draws after it
VF_PART(R01_seeding, 8) {
  int L = c.thorough ? 4 : 3; long nw = 1; for (int i = 0; i < L; ++i) nw *= NOP;
  std::vector<boost::uint64_t> seeds = {0, 1, 5489, 4294967295u, 12345}; 
  for (long w = 0; w < nw; ++w) {
    if (!c.mine(w)) continue;
    std::vector<int> ops; for (long x = w, i = 0; i < L; ++i, x /= NOP) ops.push_back(x % NOP);
    VD first; 
    for (auto s : seeds) {
      std::string d = "seed " + vf::str(s) + ", draws"; for (int o : ops) d += " " + vf::str(o);
      VD ref;
      for (int pre = -1; pre < NOP; ++pre) {
        c.cur(d + (pre >= 0 ? " after draw " + vf::str(pre) : ""));
        VD junk; if (pre >= 0) { op(pre, junk); op((pre + w) % NOP, junk); }
        r::seed(s); VD got; std::vector<size_t> at;
        for (int o : ops) { size_t b = got.size(); op(o, got); for (size_t k = b; k < got.size(); ++k) c.check(range(o, got[k]), "range", "draw " + vf::str(o) + " gives " + vf::str(got[k])); }
        if (pre < 0) ref = got; else c.check(got.size() == ref.size() && (got.empty() || memcmp(got.data(), ref.data(), got.size() * 8) == 0), "repeatable", "the numbers drawn after seeding depend on what was drawn before");
        c.transition(L); c.trace();
      }
      c.state(d);
      // the names for the same distribution draw the same numbers
      r::seed(s); VD al; for (int o : ops) op(o == 0 ? 2 : o == 2 ? 0 : o == 1 ? 3 : o == 3 ? 1 : o, al); c.check(memcmp(al.data(), ref.data(), ref.size() * 8) == 0, "alias", "rand/uniform or randn/normal draw different numbers");
      r::seed(s); VD ex; for (int o : ops) { if (o == 6) { op(1, ex); op(1, ex); op(1, ex); } else op(o, ex); } c.check(memcmp(ex.data(), ref.data(), ref.size() * 8) == 0, "vector", "a random vector does not hold the next normal numbers");
      bool rnd = false; for (int o : ops) if (o < 4 || o == 6) rnd = true;
      if (rnd && s == 0) first = ref; else if (rnd) c.check(ref != first, "seed", "another seed gives the same numbers");
    }
  }
  c.sample("seed 5489, draws 0 1 6 after draw 4");
}
VF_PART(R01_ranges, 4) {
  const double M = std::numeric_limits<double>::max() / 4; const int I = std::numeric_limits<int>::max(), J = std::numeric_limits<int>::min();
  double lo[] = {0, 1, -1, 1e10, -1e10, -M, 0.1, 1 - 1e-16, 4503599627370496.0}; std::vector<std::pair<double, double> > b;
  for (double l : lo) { double u = l; for (int k = 0; k < 6; ++k) { u = std::nextafter(u, M * 4); b.emplace_back(l, u); } for (double w : {1e-3, 0.5, 1.0, 3.0, 1e6, M}) if (l + w > l) b.emplace_back(l, l + w); b.emplace_back(l, l); }
  int N = c.thorough ? 20000 : 1500;
  for (size_t i = 0; i < b.size(); ++i) { if (!c.mine(i)) continue; r::seed(i); c.cur("randLU(%.17g, %.17g)", b[i].first, b[i].second); double mn = 1e308, mx = -1e308; for (int k = 0; k < N; ++k) { double x = r::randLU(b[i].first, b[i].second); mn = std::min(mn, x); mx = std::max(mx, x); c.eval(); } 
    if (b[i].first == b[i].second) c.check(mn == b[i].first && mx == mn, "bounds", "an empty range gives another number"); else c.check(mn >= b[i].first && mx < b[i].second, "bounds", "numbers from " + vf::str(mn) + " to " + vf::str(mx));
    double w = b[i].second / 2 - b[i].first / 2; if (w > 1e-300 && w > 1e-10 * std::fabs(b[i].first)) c.check(mn / 2 - b[i].first / 2 < 0.02 * w && b[i].second / 2 - mx / 2 < 0.02 * w, "spread", "the range is not covered"); c.transition(N); c.state(vf::str(i)); c.trace(); }
  int li[] = {0, 1, -1, -7, 5, J, I - 3, 1000000};
  for (int l : li) for (long w : {1L, 2L, 3L, 7L, 10L, 1000L, 2147483647L, 4294967295L}) {
    long u = (long)l + w; if (u > I || !c.mine((uint64_t)(w + l + 4294967296L))) continue; r::seed(w); c.cur("randLUi(%d, %ld)", l, u); std::set<int> seen; long mn = I, mx = J;
    for (int k = 0; k < N; ++k) { int x = r::randLUi(l, (int)u); if (w <= 10) seen.insert(x); mn = std::min(mn, (long)x); mx = std::max(mx, (long)x); c.eval(); }
    c.check(mn >= l && mx < u, "bounds", "numbers from " + vf::str(mn) + " to " + vf::str(mx)); if (w <= 10) c.check((long)seen.size() == w, "spread", "not every number of the range is drawn"); else c.check(mn - l < w / 50 && u - mx <= w / 50 + 1, "spread", "the range is not covered"); c.transition(N); c.state(vf::str(l) + "i" + vf::str(w)); c.trace();
  }
}
VF_PART(R01_distribution, 4) {
  int N = c.thorough ? 1000000 : 100000;
  for (int s = 0; s < 24; ++s) {
    if (!c.mine(s)) continue; r::seed(s * 7919 + 1); bool g = s & 1; c.cur("%s, seed %d", g ? "normal" : "uniform", s * 7919 + 1);
    VD x(N); double m = 0, v = 0, lag = 0; for (double& e : x) e = g ? r::normal() : r::uniform(); double mu = g ? 0 : 0.5, var = g ? 1 : 1.0 / 12;
    for (int i = 0; i < N; ++i) { m += x[i]; v += (x[i] - mu) * (x[i] - mu); if (i) lag += (x[i] - mu) * (x[i - 1] - mu); }
    m /= N; v /= N; lag /= N; double se = 6 * std::sqrt(var / N);
    c.check(std::fabs(m - mu) < se, "mean", vf::str(m)); c.check(std::fabs(v / var - 1) < 6 * std::sqrt((g ? 2.0 : 0.8) / N), "variance", vf::str(v)); c.check(std::fabs(lag) < var * 6 / std::sqrt(N), "independence", vf::str(lag));
    std::sort(x.begin(), x.end()); double ks = 0; for (int i = 0; i < N; ++i) { double F = g ? 0.5 * std::erfc(-x[i] / std::sqrt(2)) : x[i]; ks = std::max(ks, std::max(std::fabs(F - (double)i / N), std::fabs(F - (i + 1.0) / N))); }
    c.check(ks * std::sqrt(N) < 2.7, "distribution", "Kolmogorov distance " + vf::str(ks)); c.eval(); c.transition(N); c.trace(); c.state(vf::str(s));
  }
}
