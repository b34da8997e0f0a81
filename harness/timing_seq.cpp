#include <functional>
// T02 timer statistics, T04 timestamp correction:
// operation histories against executable references.
#include "vf.hpp"
#include <sys/time.h>
#include <algorithm>
#include <iostream>
#include <limits>
#include <memory>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <sm/timing/Timer.hpp>
#include <sm/timing/TimestampCorrector.hpp>
using namespace sm::timing;
static int64_t g_us = 1500000000LL * 1000000;
extern "C" int gettimeofday(struct timeval* t, void*) noexcept { t->tv_sec = g_us / 1000000; t->tv_usec = g_us % 1000000; return 0; }
namespace {
// ------------------------------------------------------------------- T02
struct TM { std::vector<int64_t> s; bool known = false; };   // samples in microseconds, since the last reset
struct World {
  const char* tag[2];
  TM t[2];
  size_t h[2];
  // two timer objects per tag: by tag and by handle
  std::unique_ptr<Timer> obj[3]; int on[3]; int64_t began[3]; int run[3];
};
bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
std::string fmtref(long double sec) {
  long long us = llroundl(sec * 1e6L);
  char b[64]; snprintf(b, sizeof b, "%02lld:%02lld:%02lld.%06lld", us / 3600000000LL, us / 60000000 % 60, us / 1000000 % 60, us % 1000000); return b;
}
bool sametime(const std::string& text, long double sec) {   // microsecond rounding either way
  return text == fmtref(sec) || text == fmtref(sec + 6e-7L) || (sec >= 6e-7L && text == fmtref(sec - 6e-7L));
}
void stats(const std::vector<int64_t>& s, double& tot, double& mean, double& var, double& mn, double& mx, double& hz) {
  long double T = 0, mi = 1e30L, ma = -1e30L; for (int64_t v : s) { long double d = v * 1e-6L; T += d; mi = std::min(mi, d); ma = std::max(ma, d); }
  long double m = T / s.size(), V = 0; for (int64_t v : s) { long double d = v * 1e-6L; V += (d - m) * (d - m); } V /= s.size();
  long double w = 0; size_t k = std::min<size_t>(50, s.size()); for (size_t i = s.size() - k; i < s.size(); ++i) w += s[i] * 1e-6L;
  tot = T; mean = m; var = V; mn = mi; mx = ma; hz = k / w;
}
void verify(vf::Ctx& c, const char* tag, size_t h, const std::vector<int64_t>& s, bool bytag) {
  size_t n = bytag ? Timing::getNumSamples(tag) : Timing::getNumSamples(h);
  c.check(n == s.size(), "count", vf::str(n) + " samples instead of " + vf::str(s.size()));
  c.check(close(bytag ? Timing::getTotalSeconds(tag) : Timing::getTotalSeconds(h), [&] { long double t = 0; for (auto v : s) t += v * 1e-6L; return (double)t; }()), "total", "total seconds");
  if (s.empty()) return;
  double tot, mean, var, mn, mx, hz; stats(s, tot, mean, var, mn, mx, hz);
  double m = bytag ? Timing::getMeanSeconds(tag) : Timing::getMeanSeconds(h), v = bytag ? Timing::getVarianceSeconds(tag) : Timing::getVarianceSeconds(h),
         lo = bytag ? Timing::getMinSeconds(tag) : Timing::getMinSeconds(h), hi = bytag ? Timing::getMaxSeconds(tag) : Timing::getMaxSeconds(h), f = bytag ? Timing::getHz(tag) : Timing::getHz(h);
  c.check(close(m, mean), "mean", vf::str(m) + " instead of " + vf::str(mean));
  c.check(std::fabs(v - var) <= 1e-9 * (1e-3 + mx * mx) && v >= 0, "variance", vf::str(v) + " instead of " + vf::str(var));
  c.check(close(lo, mn), "min", vf::str(lo) + " instead of " + vf::str(mn));
  c.check(close(hi, mx), "max", vf::str(hi) + " instead of " + vf::str(mx));
  // (a running sum leaves a rounding residue of the samples that left the window)
  c.check(std::fabs(1 / f - 1 / hz) <= 1e-9 / hz + 1e-12 * mx, "hz", vf::str(f) + " instead of " + vf::str(hz));
}
struct Row { std::string tag; size_t n; std::string total, mean, sd, mn, mx; };
bool parse(const std::string& s, std::vector<Row>& rows) {
  std::istringstream in(s); std::string l;
  if (!std::getline(in, l) || !std::getline(in, l)) return false;
  while (std::getline(in, l)) {
    Row r; std::istringstream ls(l); std::string t;
    if (!std::getline(ls, r.tag, '\t')) return false;
    while (!r.tag.empty() && r.tag.back() == ' ') r.tag.pop_back();
    if (!std::getline(ls, t, '\t')) return false;
    char* e; r.n = strtoul(t.c_str(), &e, 10); if (*e || e == t.c_str()) return false;
    if (r.n) {
      if (!std::getline(ls, r.total, '\t') || !std::getline(ls, t, '\t')) return false;
      size_t p = t.find(" +- "); if (p == std::string::npos || t[0] != '(' || t.back() != ')') return false;
      r.mean = t.substr(1, p - 1); r.sd = t.substr(p + 4, t.size() - p - 5);
      if (!std::getline(ls, t, '\t')) return false;
      p = t.find(','); if (p == std::string::npos || t[0] != '[' || t.back() != ']') return false;
      r.mn = t.substr(1, p - 1); r.mx = t.substr(p + 1, t.size() - p - 2);
    }
    rows.push_back(r);
  }
  return true;
}
void table(vf::Ctx& c, std::map<std::string, std::vector<int64_t>>& ref, int only = -2) {
  for (int sort = -1; sort < 6; ++sort) {
    if (only != -2 && sort != only) continue;
    std::vector<Row> rows;
    std::string out = sort < 0 ? Timing::print() : Timing::print((SortType)sort);
    if (!parse(out, rows)) { c.failpl("print", "unreadable table: " + vf::quote(out)); return; }
    std::map<std::string, int> seen; double prev = std::numeric_limits<double>::infinity(); bool first = true;
    for (auto& r : rows) {
      auto it = ref.find(r.tag); if (it == ref.end()) { c.failpl("print", "a row for an unknown timer " + r.tag); continue; }
      c.check(++seen[r.tag] == 1, "print", "two rows for " + r.tag);
      c.check(r.n == it->second.size(), "print", "sample count of " + r.tag);
      double tot = 0, mean = 0, var = 0, mn = 0, mx = 0, hz = 0, key = std::numeric_limits<double>::max();
      if (r.n) {
        stats(it->second, tot, mean, var, mn, mx, hz);
        c.check(sametime(r.total, tot) && sametime(r.mean, mean) && sametime(r.mn, mn) && sametime(r.mx, mx), "print", "row of " + r.tag + ": " + vf::quote(out));
        if (var > 1e-6 * mx * mx) c.check(sametime(r.sd, std::sqrt(var)), "print", "deviation of " + r.tag + ": " + r.sd + " instead of " + fmtref(std::sqrt(var)));
        else c.check(r.sd.size() >= 15 && strspn(r.sd.c_str(), "0123456789:.") == r.sd.size(), "print", "deviation of " + r.tag + ": " + r.sd);
        switch (sort) { case SORT_BY_TOTAL: key = tot; break; case SORT_BY_MEAN: key = mean; break; case SORT_BY_STD: key = std::sqrt(var); break; case SORT_BY_MIN: key = mn; break; case SORT_BY_MAX: key = mx; break; case SORT_BY_NUM_SAMPLES: key = r.n; break; }
      }
      if (sort >= 0) { c.check(first || key <= prev * (1 + 1e-9) + 1e-6, "sort", vf::str(sort) + ": " + vf::quote(out)); prev = key; first = false; }
    }
    c.check(seen.size() == ref.size(), "print", "a timer is missing");
  }
}
// 12 operations on two tags: timers 0 (tag a), 1 (tag b), 2 (tag a, by handle).
const char* OPN[] = {"a.create", "a.createStopped", "a.start", "a.stop", "a.destroy", "b.create", "b.stop", "b.start", "ah.create", "ah.stop", "reset(a)", "reset(b)", "advance 100ms", "advance 7us", "advance 61min"};
const int NOP = 15;
struct Sim {
  vf::Ctx& c; int k; std::string ta, tb; std::vector<int64_t> s[2]; std::unique_ptr<Timer> t[3]; bool run[3]; int64_t beg[3]; size_t ha, hb;
  Sim(vf::Ctx& c, int k) : c(c), k(k), ta("a"), tb("bb") { ha = Timing::getHandle(ta); hb = Timing::getHandle(tb); Timing::reset(ha); Timing::reset(hb); for (int i = 0; i < 3; ++i) run[i] = false; }
  int tagof(int i) { return i == 1; }
  void create(int i, bool stopped) {
    if (t[i]) destroy(i);
    if (i == 0) t[0].reset(stopped ? new Timer(ta, true) : new Timer(ta)); else if (i == 1) t[1].reset(new Timer(tb)); else t[2].reset(new Timer(ha));
    run[i] = !stopped; beg[i] = g_us;
  }
  void start(int i) { if (!t[i]) return; bool threw = false; try { t[i]->start(); } catch (const TimerException&) { threw = true; } c.check(threw == run[i], "start", "starting a " + std::string(run[i] ? "running" : "stopped") + " timer"); if (!run[i]) { run[i] = true; beg[i] = g_us; } }
  void stop(int i) { if (!t[i]) return; bool threw = false; try { t[i]->stop(); } catch (const TimerException&) { threw = true; } c.check(threw == !run[i], "stop", "stopping a " + std::string(run[i] ? "running" : "stopped") + " timer"); if (run[i]) { run[i] = false; s[tagof(i)].push_back(g_us - beg[i]); } }
  void destroy(int i) { if (!t[i]) return; t[i].reset(); if (run[i]) { run[i] = false; s[tagof(i)].push_back(g_us - beg[i]); } }
  void op(int o) {
    switch (o) {
      case 0: create(0, false); break; case 1: create(0, true); break; case 2: start(0); break; case 3: stop(0); break; case 4: destroy(0); break;
      case 5: create(1, false); break; case 6: stop(1); break; case 7: start(1); break; case 8: create(2, false); break; case 9: stop(2); break;
      case 10: Timing::reset(ta); s[0].clear(); break; case 11: Timing::reset(hb); s[1].clear(); break;
      case 12: g_us += 100000; break; case 13: g_us += 7; break; case 14: g_us += 3660000000LL; break;
    }
    for (int i = 0; i < 3; ++i) if (t[i]) c.check(t[i]->isTiming() == run[i], "isTiming", "isTiming");
    c.transition();
  }
  std::string key() { std::string k; for (int i = 0; i < 3; ++i) k += vf::str((bool)t[i]) + vf::str(run[i]) + (run[i] ? vf::str(g_us - beg[i]) : "") + "/"; for (int i = 0; i < 2; ++i) { k += "|"; for (auto v : s[i]) k += vf::str(v) + ","; } return k; }
  void check(bool full) {
    verify(c, "a", ha, s[0], false); verify(c, "bb", hb, s[1], false);
    if (!full) return;
    verify(c, "a", ha, s[0], true);
    c.check(Timing::getHandle("a") == ha && Timing::getHandle("bb") == hb && Timing::getTag(ha) == "a" && Timing::getTag(hb) == "bb", "handle", "handles changed");
    std::map<std::string, std::vector<int64_t>> ref; ref["a"] = s[0]; ref["bb"] = s[1]; table(c, ref);
  }
};
struct SB { Sim& s; };
}  // namespace
VF_PART(T02_histories, 8) {
  const int D = c.thorough ? 7 : 5;
  std::vector<int> seq;
  // every history of length D is run on fresh timers; the prefix tree is pruned
  // where the reference state was reached before at the same remaining depth.
  std::set<std::pair<std::string, int>> done;
  std::vector<std::vector<int>> frontier(1);
  for (int d = 0; d < D; ++d) {
    std::vector<std::vector<int>> next;
    std::set<std::string> seen;
    for (auto& p : frontier) for (int o = 0; o < NOP; ++o) {
      if (d == 1 && !c.mine(p[0] * NOP + o)) continue;
      std::string name; for (int x : p) name += std::string(OPN[x]) + "; "; name += OPN[o];
      c.cur(name);
      std::vector<int> q = p; q.push_back(o);
      std::string k; {
        Sim s(c, 0);
        for (int x : q) s.op(x);
        k = s.key();
        bool fresh = c.state(k);
        s.check(fresh);
        c.trace();
        for (int i = 0; i < 3; ++i) s.destroy(i);
        if (fresh) s.check(false);
      }
      if (seen.insert(k).second) next.push_back(q);
    }
    frontier.swap(next);
  }
  c.sample("a.create; advance 100ms; a.stop; reset(a); a.start");
}
// no histories are merged, and the statistics are read along the way (by tag, by handle, printed), so state that
// only reading leaves behind is explored as well
VF_PART(T02_sequences, 8) {
  const int D = c.thorough ? 5 : 4;
  uint64_t q = 0;
  static const char* RD[] = {"nothing is read before the end", "everything is read after each step", "the table is printed after each step", "one statistic is read after each step", "after samples of both, the table is printed in one order after each step", "after samples of both, the table is printed in one order before and after all steps"};
  std::vector<int> p; uint64_t i = 0;
  auto run = [&](int mode) {
    std::string n; for (int x : p) n += std::string(OPN[x]) + "; "; c.cur(n + RD[mode]);
    Sim s(c, 0); std::map<std::string, std::vector<int64_t>> ref;
    const int order = (int)(q++ / 6 % 7) - 1;
    if (mode >= 4) { for (int o : {0, 12, 4, 5, 13, 6}) s.op(o); s.destroy(1); ref["a"] = s.s[0]; ref["bb"] = s.s[1]; table(c, ref, order); } else
    { double r = Timing::getTotalSeconds("a"); c.check(r == 0, "total", "a fresh timer has a total"); }
    for (size_t j = 0; j < p.size(); ++j) {
      s.op(p[j]);
      if (mode == 1) { verify(c, "a", s.ha, s.s[0], j % 2); verify(c, "bb", s.hb, s.s[1], j % 2 == 0); }
      if (mode == 2) { ref["a"] = s.s[0]; ref["bb"] = s.s[1]; if (j % 2) table(c, ref); else (void)Timing::print(SORT_BY_MAX); }
      if (mode == 4) { ref["a"] = s.s[0]; ref["bb"] = s.s[1]; table(c, ref, order); }
      if (mode == 3) { if (j % 3 == 0) (void)Timing::getMeanSeconds(s.ha); else if (j % 3 == 1) (void)Timing::getHz("a"); else (void)Timing::getVarianceSeconds("a"); }
    }
    if (mode == 5) { ref["a"] = s.s[0]; ref["bb"] = s.s[1]; table(c, ref, order); }
    s.check(true);
    for (int k = 0; k < 3; ++k) s.destroy(k);
    s.check(mode == 2); c.state(n + vf::str(mode)); c.trace();
  };
  std::function<void()> rec = [&] {
    if (p.size() == 2 && !c.mine(i++)) return;
    if ((int)p.size() == D) { for (int m = 0; m < 6; ++m) if (D < 5 || m < 2 || m == 5) run(m); return; }
    for (int o = 0; o < NOP; ++o) { p.push_back(o); rec(); p.pop_back(); }
  };
  rec();
}
VF_PART(T02_long_histories) {
  // the rate uses the last 50 samples; every length 1..160 with three patterns
  for (int pat = 0; pat < 4; ++pat) {
    Timing::reset("long"); std::vector<int64_t> s;
    for (int n = 1; n <= 160; ++n) {
      c.cur("pattern %d, %d samples", pat, n);
      int64_t d = pat == 0 ? 100000 : pat == 1 ? (n % 2 ? 10 : 3000000) : pat == 2 ? n * 1000 : (n < 100 ? 3600000000LL : 100);
      { Timer t("long"); g_us += d; t.stop(); } s.push_back(d);
      verify(c, "long", Timing::getHandle("long"), s, n % 2);
      c.transition(); c.state(vf::str(pat) + "/" + vf::str(n));
      if (n % 10 == 0 || n < 10) { std::map<std::string, std::vector<int64_t>> ref; ref["long"] = s; table(c, ref); }
    }
    c.trace();
  }
}
// many samples: counters and sums far beyond the window, checked around powers of two and ten
VF_PART(T02_very_long_histories, 3) {
  const int N = c.thorough ? 1100000 : 140000;
  for (int pat = 0; pat < 3; ++pat) {
    if (!c.mine(pat)) continue;
    std::string tag = "very long " + vf::str(pat); size_t h = Timing::getHandle(tag); std::vector<int64_t> s; Timer t(h, true);
    for (int n = 1; n <= N; ++n) {
      int64_t d = pat == 0 ? 1000 : pat == 1 ? 1 + n % 1000 : (n % 997 == 0 ? 5000000 : 20);
      t.start(); g_us += d; t.stop(); s.push_back(d); c.transition();
      bool look = n == N; for (long long b = 64; b <= N; b *= 2) look = look || std::llabs(n - b) <= 1; for (long long b = 100; b <= N; b *= 10) look = look || std::llabs(n - b) <= 1;
      if (!look) continue;
      c.cur("pattern %d, %d samples", pat, n); verify(c, tag.c_str(), h, s, n % 2); c.state(vf::str(pat) + "/" + vf::str(n)); c.trace();
      std::map<std::string, std::vector<int64_t>> ref; ref[tag] = s; table(c, ref);
    }
  }
}
// many timers: each keeps its own samples, and all are printed
VF_PART(T02_many_timers, 4) {
  const int N = c.thorough ? 1100 : 300;
  for (int w = 0; w < 4; ++w) {          // order in which they get their samples; lengths of the names
    if (!c.mine(w)) continue;
    c.cur("%d timers, order %d", N, w);
    vf::isolated(c, [&] {
      std::map<std::string, std::vector<int64_t>> ref; std::map<std::string, size_t> h;
      for (int i = 0; i < N; ++i) {
        std::string tag = "t" + std::string(w == 1 ? i % 70 : w == 2 ? (i * i) % 23 : 1, 'x') + vf::str(i); ref[tag]; h[tag] = Timing::getHandle(tag);
        int k = 0; for (auto& p : ref) { if (w == 3 ? k % 17 == i % 17 : (k * 31 + i) % 23 == 0) { Timer t(w & 1 ? Timer(h[p.first]) : Timer(p.first)); int64_t d = 1 + (k * 7919LL + i * 104729LL) % 90000000; g_us += d; t.stop(); p.second.push_back(d); c.transition(); } ++k; }
        if (i % 37 == 5) { auto it = ref.begin(); std::advance(it, ref.size() / 2); Timing::reset(it->first); it->second.clear(); }
        if (i % 64 <= 1 || i == N - 1) { for (auto& p : ref) verify(c, p.first.c_str(), h[p.first], p.second, i % 2); table(c, ref); c.state(vf::str(w) + "/" + vf::str(i)); c.trace(); }
      }
    });
  }
}
VF_PART(T02_handles) {
  std::map<std::string, size_t> h;
  for (int i = 0; i < 60; ++i) {
    std::string t = "t" + vf::str(i * 7 % 60) + std::string(i % 5, 'x');
    c.cur("handle of %s", t.c_str());
    bool isnew = !h.count(t); size_t v = Timing::getHandle(t);
    for (auto& p : h) c.check(isnew ? p.second != v : (p.first == t) == (p.second == v), "handle", "handle reused");
    h[t] = v;
    for (auto& p : h) c.check(Timing::getTag(p.second) == p.first && Timing::getHandle(p.first) == p.second, "handle", p.first);
    // everything by a handle that does not exist is refused
    size_t bad[] = {h.size(), h.size() + 1, (size_t)-1};
    for (size_t b : bad) for (int f = 0; f < 10; ++f) {
      bool threw = false;
      try {
        switch (f) { case 0: Timing::getTotalSeconds(b); break; case 1: Timing::getMeanSeconds(b); break; case 2: Timing::getNumSamples(b); break; case 3: Timing::getVarianceSeconds(b); break; case 4: Timing::getMinSeconds(b); break;
          case 5: Timing::getMaxSeconds(b); break; case 6: Timing::getHz(b); break; case 7: Timing::reset(b); break; case 8: Timing::getTag(b); break; case 9: { Timer t(b); } break; }
      } catch (const TimerException&) { threw = true; }
      c.check(threw, "invalid-handle", "call " + vf::str(f) + " accepted handle " + vf::str(b)); c.transition();
    }
    c.state(vf::str(i)); c.trace();
  }
}
VF_PART(T02_time_string, 4) {
  static const double S[] = {0, 1e-7, 4e-7, 1e-6, 0.1, 0.4999994, 0.9999994, 0.9999996, 1, 9.9999996, 30.5, 59, 59.0000004, 59.9999994, 59.9999996, 59.99999996, 59.999999999};
  int k = 0;
  for (int h : {0, 1, 2, 9, 10, 23, 24, 99, 100, 1000, 10000}) for (int m : {0, 1, 9, 10, 29, 30, 58, 59}) for (double s : S) {
    if (!c.mine(k++)) continue;
    double x = h * 3600.0 + m * 60.0 + s; c.cur("secondsToTimeString(%.17g)", x);
    std::string r = Timing::secondsToTimeString(x); c.transition(); c.trace(); c.state(vf::str(x));
    int H = -1, M = -1; double sec = -1; char z; int n = sscanf(r.c_str(), "%d:%d:%lf%c", &H, &M, &sec, &z);
    bool ok = n == 3 && H >= 0 && M >= 0 && M < 60 && sec >= 0 && sec < 60 && std::fabs(H * 3600.0L + M * 60.0L + sec - x) <= 5.1e-7L + 1e-15L * x && r == fmtref(H * 3600.0L + M * 60.0L + sec);
    c.check(ok, "time-string", vf::str(x) + " s is printed as " + r);
  }
}
VF_PART(T02_time_zone) {
  // elapsed time does not depend on the zone or on daylight saving changes
  const char* Z[] = {"UTC", "CET-1CEST,M3.5.0/2,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "XXX-12", "NZST-12NZDT,M9.5.0,M4.1.0/3"};
  for (const char* z : Z) {
    setenv("TZ", z, 1); tzset();
    for (int m = 0; m < 24 * 366; ++m) {
      g_us = (1483228800LL + m * 3600LL - 1800) * 1000000;   // each hour of 2017
      c.cur("zone %s, hour %d of 2017", z, m);
      Timing::reset("tz"); { Timer t("tz"); g_us += 3600 * 1000000LL; }
      c.check(close(Timing::getTotalSeconds("tz"), 3600), "zone", vf::str(Timing::getTotalSeconds("tz")) + " s measured for one hour");
      c.transition(); c.state(std::string(z) + vf::str(m)); c.trace();
    }
  }
  setenv("TZ", "UTC", 1); tzset();
}
// ------------------------------------------------------------------- T04
namespace {
typedef __int128 I;
template <class T> struct Tr;
template <> struct Tr<double> { static double unit() { return 0.25; } };   // exact binary fractions
template <> struct Tr<int64_t> { static int64_t unit() { return 1; } };
// Reference: integer grid points (units), strict lower hull from scratch.
struct Ref {
  std::vector<std::pair<I, I>> p;
  std::vector<std::pair<I, I>> hull() const {
    std::vector<std::pair<I, I>> h;
    for (auto& q : p) {
      while (h.size() >= 2) { auto &a = h[h.size() - 2], &b = h.back(); if ((b.first - a.first) * (q.second - a.second) - (b.second - a.second) * (q.first - a.first) <= 0) h.pop_back(); else break; }
      h.push_back(q);
    }
    return h;
  }
};
long double evalline(std::pair<I, I> a, std::pair<I, I> b, I x) { return (long double)a.second + (long double)((x - a.first) * (b.second - a.second)) / (long double)(b.first - a.first); }
// The lines that may be used: hull segments containing the middle of the time span
// (two if the middle is a corner; integer middles may be rounded either way).
std::vector<std::pair<std::pair<I, I>, std::pair<I, I>>> lines(const Ref& r, bool integral) {
  auto h = r.hull(); std::vector<std::pair<std::pair<I, I>, std::pair<I, I>>> out;
  I lo = h[0].first + h.back().first, w = integral ? 1 : 0;   // twice the middle
  for (size_t i = 0; i + 1 < h.size(); ++i) if (2 * h[i].first <= lo + w && 2 * h[i + 1].first >= lo - w) out.push_back({h[i], h[i + 1]});
  return out;
}
template <class T> struct Run {
  vf::Ctx& c; TimestampCorrector<T> tc; Ref r; T bx, by, ux, uy; double tol;
  Run(vf::Ctx& c, T bx, T by, T ux, T uy, double tol) : c(c), bx(bx), by(by), ux(ux), uy(uy), tol(tol) {}
  T X(I x) { return bx + ux * (T)(int64_t)x; } T Y(I y) { return by + uy * (T)(int64_t)y; }
  bool matches(T got, I x, bool integral) {
    if (r.p.size() < 2) return false;
    for (auto& l : lines(r, integral)) { long double e = evalline(l.first, l.second, x) * (long double)uy; long double d = (long double)got - (long double)by - e; if (fabsl(d) <= tol + 1e-12L * fabsl(e)) return true; }
    return false;
  }
  void compare(bool integral) {
    size_t n = r.p.size();
    if (n < 2) {
      int threw = 0; try { tc.getLocalTime(X(0)); } catch (const typename TimestampCorrector<T>::NotInitializedException&) { ++threw; }
      try { tc.getSlope(); } catch (const typename TimestampCorrector<T>::NotInitializedException&) { ++threw; }
      try { tc.getOffset(); } catch (const typename TimestampCorrector<T>::NotInitializedException&) { ++threw; }
      c.check(threw == 3, "uninitialised", "a query with fewer than two points was answered"); return;
    }
    I last = r.p.back().first;
    for (I x : {r.p[0].first, last, last + 5, (r.p[0].first + last) / 2}) {
      T g = tc.getLocalTime(X(x));
      if (!matches(g, x, integral)) c.failpl("local-time", "getLocalTime at " + vf::str((int64_t)x) + " is " + vf::str((long double)g - (long double)by) + " above the base");
    }
    bool ok = false; for (auto& l : lines(r, integral)) { long double s = (long double)uy * (long double)(l.second.second - l.first.second) / ((long double)ux * (long double)(l.second.first - l.first.first)); if (fabsl(tc.getSlope() - s) <= 1e-9L * (1 + fabsl(s))) ok = true; }
    c.check(ok, "slope", "slope " + vf::str(tc.getSlope()));
    ok = false; for (auto& l : lines(r, integral)) { long double s = (long double)uy * (long double)(l.second.second - l.first.second) / ((long double)ux * (long double)(l.second.first - l.first.first)); long double o = (long double)Y(l.first.second) - s * (long double)X(l.first.first); if (fabsl(tc.getOffset() - o) <= tol + 1e-9L * (1 + fabsl(s) * fabsl((long double)bx) + fabsl((long double)by))) ok = true; }
    c.check(ok, "offset", "offset " + vf::str(tc.getOffset()));
    size_t hs = r.hull().size();
    c.check(tc.convexHullSize() >= hs && tc.convexHullSize() <= n, "hull", vf::str(tc.convexHullSize()) + " hull points instead of " + vf::str(hs));
    if (hs > 2) { I sp = r.p.back().second - r.p[0].second; c.check(std::fabs((double)(tc.span() - (T)(uy * (T)(int64_t)sp))) <= tol, "span", "span " + vf::str(tc.span())); }
  }
  void feed(I x, I y, bool integral) {
    if (!r.p.empty() && x <= r.p.back().first) {
      bool threw = false; try { tc.correctTimestamp(X(x), Y(y)); } catch (const typename TimestampCorrector<T>::TimeWentBackwardsException&) { threw = true; }
      c.check(threw, "backwards", "a remote time that did not increase was accepted"); return;
    }
    T got = tc.correctTimestamp(X(x), Y(y)); r.p.push_back({x, y});
    size_t hs = r.p.size() < 3 ? 0 : r.hull().size();
    bool ok = hs >= 3 ? matches(got, x, integral) : got == Y(y) || (r.p.size() >= 3 && matches(got, x, integral));
    c.check(ok, "corrected", "estimate of the newest event is " + vf::str((long double)got - (long double)by) + " above the base");
    c.check((long double)got <= (long double)Y(y) + tol, "late", "an event is placed after its reception");
  }
};
const int DX[] = {1, 2, 7, 0, -1};
const int DY[] = {0, 1, 3, 10};
template <class T> void hist(vf::Ctx& c, const char* what, T bx, T by, T ux, T uy, double tol, bool integral, int D) {
  // every sequence of D steps over DX x jitter; each prefix is compared too
  const int A = 3 * 4 + 2; long total = 1; for (int i = 0; i < D; ++i) total *= A;
  for (long k = 0; k < total; ++k) {
    if (!c.mine(k / A)) continue;
    std::string nm = std::string(what) + ":"; long q = k; std::vector<std::pair<I, I>> pts; I x = 0; bool back = false;
    for (int i = 0; i < D; ++i, q /= A) { int o = q % A; int dx = o < 12 ? DX[o / 4] : DX[3 + o - 12]; int j = o < 12 ? DY[o % 4] : 0; I nx = x + dx; pts.push_back({nx, 2 * nx + j}); if (dx > 0 || i == 0) x = nx; if (o >= 12 && i) back = true; nm += " (" + vf::str((int)nx) + "," + vf::str((int)(2 * nx + j)) + ")"; }
    c.cur(nm);
    Run<T> R(c, bx, by, ux, uy, tol);
    bool last = true;
    for (auto& p : pts) { R.feed(p.first, p.second, integral); R.compare(integral); c.transition(); }
    // without a question in between, and with one kind of question only
    { Run<T> S(c, bx, by, ux, uy, tol); for (auto& p : pts) S.feed(p.first, p.second, integral); S.compare(integral); c.transition(); }
    if (k % 3 == 0) { Run<T> S(c, bx, by, ux, uy, tol); for (auto& p : pts) { S.feed(p.first, p.second, integral); if (S.r.p.size() >= 2) { if (k % 9 == 0) S.tc.getSlope(); else if (k % 9 == 3) S.tc.getOffset(); else S.tc.getLocalTime(S.X(S.r.p.back().first)); } } S.compare(integral); c.transition(); }
    c.trace(); std::string key = what; for (auto& p : R.r.p) key += vf::str((int64_t)p.first) + "," + vf::str((int64_t)p.second) + ";"; c.state(key);
    if (k % 50021 == 0) c.sample(nm);
  }
}
}  // namespace
VF_PART(T04_seconds, 8) { hist<double>(c, "double", 0, 0, 0.25, 0.25, 1e-9, false, c.thorough ? 6 : 4); }
VF_PART(T04_epoch_seconds, 8) { hist<double>(c, "double epoch", 1048576.0 * 1024, 1048576.0 * 1025, 0.25, 0.25, 5e-7, false, c.thorough ? 5 : 4); }
VF_PART(T04_counts, 8) { hist<int64_t>(c, "int64", 0, 0, 1, 1, 1, true, c.thorough ? 6 : 4); }
VF_PART(T04_nanoseconds, 8) { hist<int64_t>(c, "int64 epoch, 1s steps", 1500000000000000000LL, 1500000000500000000LL, 1000000000LL, 1000000000LL, 2, true, c.thorough ? 5 : 4); }
VF_PART(T04_nanoseconds_fine, 8) { hist<int64_t>(c, "int64 epoch, 1ns steps", 1500000000000000000LL, 1500000000500000000LL, 1, 1, 2, true, c.thorough ? 5 : 4); }
VF_PART(T04_late_nanoseconds, 8) { hist<int64_t>(c, "int64 near the end of the range", 9000000000000000000LL, 8999999999999990000LL, 1000, 1000, 2, true, c.thorough ? 5 : 4); }
VF_PART(T04_negative_times, 8) { hist<int64_t>(c, "int64 below zero", -4000000000000000000LL, -9000000000000000000LL, 1000, 1000, 2, true, c.thorough ? 5 : 4); }
VF_PART(T04_hours, 8) { hist<int64_t>(c, "int64, 1h steps", 0, 1000, 3600000000000LL, 3600000000000LL, 2, true, c.thorough ? 5 : 4); }
// Two alternating correctors.  The reference is the set of (start of the active,
// start of the pending history) that explain everything observed so far; it has
// several members only while all points of a history lie on one line.
namespace {
struct Alt { size_t a; long p; bool operator<(const Alt& o) const { return a != o.a ? a < o.a : p < o.p; } };
template <class T> void alt(vf::Ctx& c, const char* what, T bx, T by, T u, double tol, bool integral, int D) {
  static const int X[] = {1, 3}, J[] = {0, 2, 6}, PER[] = {5, 12, 26};
  const int A = 6; long total = 1; for (int i = 0; i < D; ++i) total *= A;
  for (int per : PER) for (long k = 0; k < total; ++k) {
    if (!c.mine(k)) continue;
    std::string nm = std::string(what) + ", period " + vf::str(per) + ":"; long q = k; std::vector<std::pair<I, I>> pts; I x = 0;
    for (int i = 0; i < D; ++i, q /= A) { x += X[q % A / 3]; pts.push_back({x, 2 * x + J[q % 3]}); nm += " (" + vf::str((int)x) + "," + vf::str((int)pts.back().second) + ")"; }
    c.cur(nm);
    TimestampCorrector<T> tc; std::set<Alt> S; S.insert(Alt{0, -1});
    for (size_t i = 0; i < pts.size(); ++i) {
      T xr = bx + u * (T)(int64_t)pts[i].first, yl = by + u * (T)(int64_t)pts[i].second;
      T got = tc.correctTimestamp(xr, yl, (T)(u * per));
      c.check((long double)got <= (long double)yl + tol, "alternate-late", "an event is placed after its reception");
      size_t hs = tc.convexHullSize(); T now = 0; bool have = hs >= 2; if (have) now = tc.getLocalTime(xr);
      std::set<Alt> N;
      for (auto& s : S) {
        auto ref = [&](size_t st, size_t en) { Ref r; for (size_t j = st; j <= en; ++j) r.p.push_back(pts[j]); return r; };
        auto ok = [&](const Ref& r, T v) { if (r.p.size() < 2) return false; for (auto& l : lines(r, integral)) { long double e = evalline(l.first, l.second, pts[i].first) * (long double)u; if (fabsl((long double)v - (long double)by - e) <= tol + 1e-12L * fabsl(e)) return true; } return false; };
        Ref r = ref(s.a, i); size_t n = r.p.size(), strict = r.hull().size();
        if (!(n < 3 || strict < 3 ? got == yl || (n >= 3 && ok(r, got)) : ok(r, got))) continue;
        I span = r.p.back().second - r.p[0].second;
        for (int loose = 0; loose < 2; ++loose) {   // is the hull of a straight line two points or more?
          I sp = strict > 2 || (loose && n > 2) ? span : 0;
          if (strict > 2 && loose) continue;
          Alt t = s;
          if (t.p < 0 && 2 * sp > per) t.p = i;
          if (sp > per) { t.a = t.p; t.p = -2 - (long)i; }   // the other one starts with the next point
          if (t.p < -1) t.p = i + 1;
          Ref r2 = ref(t.a, i);
          if (have != (r2.p.size() >= 2) || hs > r2.p.size()) continue;
          if (have && (hs < r2.hull().size() || !ok(r2, now))) continue;
          N.insert(t);
        }
      }
      S.swap(N); c.transition();
      if (S.empty()) { c.failpl("alternate", "after point " + vf::str(i + 1) + " no alternation of two correctors explains " + vf::str((long double)got - (long double)by) + ", hull size " + vf::str(hs)); break; }
    }
    c.trace(); c.state(nm);
  }
}
}  // namespace
VF_PART(T04_alternating, 8) { alt<double>(c, "double", 0, 0, 0.25, 1e-9, false, c.thorough ? 8 : 6); }
VF_PART(T04_alternating_ns, 8) { alt<int64_t>(c, "int64", 1500000000000000000LL, 1500000000500000000LL, 100000000LL, 2, true, c.thorough ? 7 : 5); }
