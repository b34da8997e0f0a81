// Schedule exploration of the timing registry (T01).
#include "vs.hpp"
#include <boost/bind/bind.hpp>
#include <boost/thread.hpp>
#include <sm/timing/Timer.hpp>
#include <cstring>
using namespace sm::timing;
namespace {
void use(const char* tag) { Timer t(tag); vs::point("timing"); t.stop(); }
void useh(size_t h) { Timer t(h); vs::point("timing"); t.stop(); }
void handle(const char* tag, size_t* out) { *out = Timing::getHandle(tag); }
void mk(const char* tag) { Timing::getHandle(tag); }
// Every statistic of a timer with samples is meaningful at any moment.
void query(size_t h, int which) {
  switch (which) {
    case 0: vs::check(Timing::getTotalSeconds(h) >= 0, "total", "negative total"); break;
    case 1: vs::check(Timing::getMeanSeconds(h) >= 0, "mean", "mean"); break;
    case 2: vs::check(Timing::getVarianceSeconds(h) >= 0, "variance", "variance"); break;
    case 3: vs::check(Timing::getMinSeconds(h) >= 0, "min", "min"); break;
    case 4: vs::check(Timing::getMaxSeconds(h) >= 0, "max", "max"); break;
    case 5: vs::check(Timing::getHz(h) >= 0, "hz", "rate"); break;
    case 6: { size_t n = Timing::getNumSamples(h); vs::check(n == 1 || n == 2, "count", "a count that never existed"); } break;
    case 7: vs::check(Timing::getTag(h) == "a", "tag", "the tag of a handle changed"); break;
  }
}
void samples(const char* tag, size_t n) {
  size_t k = Timing::getNumSamples(tag);
  if (k != n) vs::fail("samples", "timer '%s' has %zu samples instead of %zu", tag, k, n);
}
void printer(std::string* out) { *out = Timing::print(); }
void printer2(std::string* out, int s) { *out = Timing::print((SortType)s); }
void reset(const char* tag) { Timing::reset(tag); }
int rows(const std::string& s, const char* tag) { int n = 0; size_t p = 0; std::string w = std::string("\n") + tag; while ((p = s.find(w, p)) != std::string::npos) { ++n; p += 1; } return n; }
}  // namespace
VS_SCENARIO(T01_first_use_same_tag, o.quick_bound = 5; o.thorough_bound = 7) {
  size_t h1, h2;
  boost::thread t(boost::bind(&handle, "a", &h1));
  handle("a", &h2);
  t.join();
  vs::check(h1 == h2, "handle", "one tag has two handles");
  vs::check(Timing::getTag(h1) == "a", "tag", "wrong tag");
}
VS_SCENARIO(T01_first_use_two_tags, o.quick_bound = 5; o.thorough_bound = 7) {
  size_t h1, h2;
  boost::thread t(boost::bind(&handle, "a", &h1));
  handle("b", &h2);
  t.join();
  vs::check(h1 != h2, "handle", "two tags share a handle");
  vs::check(Timing::getTag(h1) == "a" && Timing::getTag(h2) == "b", "tag", "wrong tag");
  vs::log("%zu%zu", h1, h2);
}
VS_SCENARIO(T01_two_threads_time_one_tag, o.quick_bound = 4; o.thorough_bound = 6) {
  boost::thread t(boost::bind(&use, "a"));
  use("a"); use("a");
  t.join();
  samples("a", 3);
}
VS_SCENARIO(T01_three_threads_two_tags, o.quick_bound = 2; o.thorough_bound = 3) {
  boost::thread t(boost::bind(&use, "a")), u(boost::bind(&use, "b"));
  use("a");
  t.join(); u.join();
  samples("a", 2); samples("b", 1);
}
VS_SCENARIO(T01_handle_timer_while_tags_are_added, o.quick_bound = 4; o.thorough_bound = 6) {
  size_t h = Timing::getHandle("a");
  boost::thread t(boost::bind(&mk, "b"));
  useh(h);
  t.join();
  samples("a", 1); samples("b", 0);
}
VS_SCENARIO(T01_every_query_while_tags_are_added, o.quick_bound = 3; o.thorough_bound = 4) {
  use("a");
  size_t h = Timing::getHandle("a");
  int w = vs::choose(8);
  boost::thread t(boost::bind(&mk, "b"));
  query(h, w);
  t.join();
  vs::log("%d", w);
}
VS_SCENARIO(T01_every_query_while_samples_are_added, o.quick_bound = 3; o.thorough_bound = 4) {
  use("a");
  size_t h = Timing::getHandle("a");
  int w = vs::choose(8);
  boost::thread t(boost::bind(&use, "a"));
  query(h, w);
  t.join();
  samples("a", 2);
  vs::log("%d", w);
}
VS_SCENARIO(T01_query_by_tag_creates_while_timing, o.quick_bound = 3; o.thorough_bound = 4) {
  use("a");
  boost::thread t(boost::bind(&use, "b"));
  vs::check(Timing::getNumSamples("c") == 0 && Timing::getNumSamples("a") == 1 && Timing::getTotalSeconds("a") >= 0, "query", "wrong statistics");
  t.join();
  samples("b", 1); samples("c", 0);
}
VS_SCENARIO(T01_reset_while_timing, o.quick_bound = 4; o.thorough_bound = 6) {
  use("a");
  boost::thread t(boost::bind(&reset, "a"));
  use("a");
  t.join();
  size_t n = Timing::getNumSamples("a");
  vs::check(n <= 1, "reset", "samples from before the reset are left");
  vs::log("%zu", n);
}
VS_SCENARIO(T01_reset_while_queried, o.quick_bound = 3; o.thorough_bound = 4) {
  use("a");
  size_t h = Timing::getHandle("a");
  int w = vs::choose(8);
  boost::thread t(boost::bind(&reset, "a"));
  if (w == 6) vs::check(Timing::getNumSamples(h) <= 1, "count", "a count that never existed");
  else if (w == 0) vs::check(Timing::getTotalSeconds(h) >= 0, "total", "total");
  else if (w == 7) query(h, w);
  else switch (w) { case 1: Timing::getMeanSeconds(h); break; case 2: Timing::getVarianceSeconds(h); break; case 3: Timing::getMinSeconds(h); break; case 4: Timing::getMaxSeconds(h); break; case 5: Timing::getHz(h); break; }
  t.join();
  samples("a", 0);
}
VS_SCENARIO(T01_print_while_tags_are_added, o.quick_bound = 3; o.thorough_bound = 4) {
  use("a");
  int s = vs::choose(7);
  std::string out;
  boost::thread t(s == 6 ? boost::thread(boost::bind(&printer, &out)) : boost::thread(boost::bind(&printer2, &out, s)));
  use("b");
  t.join();
  vs::check(rows(out, "a") == 1, "print", "a timer is missing from the table");
  vs::check(rows(out, "b") <= 1, "print", "a timer is twice in the table");
  vs::check(out.find("nan") == std::string::npos, "print", "nan");
  vs::log("%d%d", s, rows(out, "b"));
}
VS_SCENARIO(T01_get_tag_while_tags_are_added, o.quick_bound = 3; o.thorough_bound = 4) {
  size_t h = Timing::getHandle("a");
  boost::thread t(boost::bind(&mk, "b"));
  vs::check(Timing::getTag(h) == "a", "tag", "wrong tag");
  mk("c");
  t.join();
  vs::check(Timing::getTag(h) == "a", "tag", "wrong tag");
}
// more threads and tags than two
namespace { void several(const char* a, const char* b, const char* c) { use(a); use(b); use(c); } }
VS_SCENARIO(T01_five_threads_three_tags, o.quick_bound = 0; o.thorough_bound = 1) {
  boost::thread t(boost::bind(&several, "a", "b", "c")), u(boost::bind(&several, "b", "c", "a")), v(boost::bind(&several, "c", "c", "b")), w(boost::bind(&several, "a", "a", "a"));
  several("c", "b", "a");
  t.join(); u.join(); v.join(); w.join();
  samples("a", 6); samples("b", 4); samples("c", 5);
}
VS_SCENARIO(T01_many_tags, o.quick_bound = 1; o.thorough_bound = 2) {
  char n[8]; size_t h[40];
  for (int i = 0; i < 33; ++i) { snprintf(n, sizeof n, "n%d", i); h[i] = Timing::getHandle(n); if (i % 3 == 0) useh(h[i]); }
  boost::thread t(boost::bind(&several, "n5", "new1", "new2"));
  several("n32", "new2", "new3");
  t.join();
  for (int i = 0; i < 33; ++i) { snprintf(n, sizeof n, "n%d", i); vs::check(Timing::getHandle(n) == h[i] && Timing::getTag(h[i]) == n, "handle", "a handle changed its tag"); samples(n, (i % 3 == 0) + (i == 5) + (i == 32)); }
  samples("new1", 1); samples("new2", 2); samples("new3", 1);
}
VS_SCENARIO(T01_reset_by_handle_and_tag, o.quick_bound = 3; o.thorough_bound = 4) {
  use("a"); use("b"); size_t h = Timing::getHandle("a");
  boost::thread t(boost::bind(&reset, "a"));
  Timing::reset(h); useh(h);
  t.join();
  size_t n = Timing::getNumSamples(h); vs::check(n <= 1, "reset", "samples from before the reset are left"); samples("b", 1);
  vs::log("%zu", n);
}
namespace { void stopped(size_t h, int n) { Timer t(h, true); vs::check(!t.isTiming(), "timing", "a timer made stopped is timing"); for (int i = 0; i < n; ++i) { t.start(); vs::check(t.isTiming(), "timing", "a started timer is not timing"); vs::point("timing"); t.stop(); } } }
VS_SCENARIO(T01_restarted_timers, o.quick_bound = 3; o.thorough_bound = 4) {
  size_t h = Timing::getHandle("a");
  boost::thread t(boost::bind(&stopped, h, 2));
  stopped(h, 2);
  t.join();
  samples("a", 4);
}
