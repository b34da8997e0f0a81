// Schedule exploration of the logging system (L01: delivery and configuration
// under concurrency; L04: once/throttle under concurrency).
#include "vs.hpp"
#include <sm/logging.hpp>
#include <sm/logging/Logger.hpp>
#include <boost/bind/bind.hpp>
#include <boost/thread.hpp>
#include <stdexcept>
#include <string>
using namespace sm::logging;
namespace {
// Records without any locking of its own: events must arrive one at a time.
struct Rec : public Logger {
  int n; int in; std::string msg[16]; int lvl[16];
  double now_s;
  Rec() : n(0), in(0), now_s(1000) {}
  ~Rec() override { n = -1; }
  Time currentTimeImplementation() const override { return Time(std::chrono::duration_cast<Duration>(std::chrono::duration<double>(now_s))); }
  void logImplementation(const LoggingEvent& e) override {
    vs::check(in == 0, "interleaved", "two messages are delivered at the same time");
    in = 1;
    vs::point("in logger");
    std::string m(e.message);
    vs::check(n < 16 && n >= 0, "too-many", "more messages than were logged");
    msg[n] = m; lvl[n] = e.level; n++;
    hook(m);
    in = 0;
  }
  virtual void hook(const std::string&) {}
  int count(const char* s) const { int k = 0; for (int i = 0; i < n; ++i) if (msg[i] == s) ++k; return k; }
};
boost::shared_ptr<Rec> fresh() { boost::shared_ptr<Rec> r(new Rec); setLogger(r); setLevel(levels::All); return r; }
void one(const char* s) { SM_INFO("%s", s); }                      // one shared statement
void sone(const char* s) { SM_WARN_STREAM("<" << s << ">"); }
void named(const char* s) { SM_INFO_NAMED("x", "%s", s); }
void named2(const char* s) { SM_INFO_STREAM_NAMED("y", s); }
void rt_f(Level lv, const char* s) { SM_LOG(lv, "sm", "%s", s); }       // level known only at run time
void rt_s(Level lv, const char* s) { SM_LOG_STREAM(lv, "sm", s); }
void once_f(const char* s) { SM_INFO_ONCE("%s", s); }
void once_s(const char* s) { SM_INFO_STREAM_ONCE(s); }
void thr_f(const char* s) { SM_INFO_THROTTLE(1.0, "%s", s); }
void thr_s(const char* s) { SM_INFO_STREAM_THROTTLE(1.0, s); }
void expect(Rec& r, const char* s, int k) { if (r.count(s) != k) vs::fail("delivery", "message '%s' delivered %d times instead of %d", s, r.count(s), k); }
}  // namespace

VS_SCENARIO(L01_same_statement_first_use, o.quick_bound = 2; o.thorough_bound = 3) {
  boost::shared_ptr<Rec> r = fresh();
  boost::thread t(boost::bind(&one, "aaaa"));
  one("bb");
  t.join();
  expect(*r, "aaaa", 1); expect(*r, "bb", 1);
  vs::check(r->n == 2, "delivery", "extra messages");
  vs::log("%s", r->msg[0].c_str());
}
VS_SCENARIO(L01_stream_and_printf, o.quick_bound = 2; o.thorough_bound = 3) {
  boost::shared_ptr<Rec> r = fresh();
  boost::thread t(boost::bind(&sone, "aaaa"));
  one("bb"); sone("c");
  t.join();
  expect(*r, "<aaaa>", 1); expect(*r, "bb", 1); expect(*r, "<c>", 1);
  vs::log("%s%s", r->msg[0].c_str(), r->msg[1].c_str());
}
VS_SCENARIO(L01_three_loggers, o.quick_bound = 1; o.thorough_bound = 2) {
  boost::shared_ptr<Rec> r = fresh();
  boost::thread t(boost::bind(&one, "aaaa")), u(boost::bind(&named, "no"));
  sone("c");
  t.join(); u.join();
  expect(*r, "aaaa", 1); expect(*r, "<c>", 1); expect(*r, "no", 0);
  vs::log("%s%s", r->msg[0].c_str(), r->msg[1].c_str());
}
// a statement's first use against enabling its stream
VS_SCENARIO(L01_enable_vs_first_use, o.quick_bound = 3; o.thorough_bound = 4) {
  boost::shared_ptr<Rec> r = fresh();
  boost::thread t(boost::bind(&named, "aa"));
  enableNamedStream("x");
  t.join();
  int k = r->count("aa");
  vs::check(k <= 1, "delivery", "message delivered twice");
  named("bb");
  expect(*r, "bb", 1);   // the configuration is in force, whatever the schedule was
  vs::log("%d", k);
}
VS_SCENARIO(L01_disable_vs_first_use, o.quick_bound = 3; o.thorough_bound = 4) {
  boost::shared_ptr<Rec> r = fresh();
  enableNamedStream("x");
  boost::thread t(boost::bind(&named, "aa"));
  disableNamedStream("x");
  t.join();
  int k = r->count("aa");
  named("bb");
  expect(*r, "bb", 0);
  vs::log("%d", k);
}
VS_SCENARIO(L01_level_vs_first_use, o.quick_bound = 3; o.thorough_bound = 4) {
  boost::shared_ptr<Rec> r = fresh();
  boost::thread t(boost::bind(&one, "aa"));
  setLevel(levels::Error);
  t.join();
  int k = r->count("aa");
  one("bb");
  expect(*r, "bb", 0);
  setLevel(levels::Info);
  one("cc");
  expect(*r, "cc", 1);
  vs::log("%d", k);
}
// one statement whose level is chosen at run time, used with different levels at once
VS_SCENARIO(L01_runtime_level_disabled_and_enabled, o.quick_bound = 2; o.thorough_bound = 3) {
  boost::shared_ptr<Rec> r = fresh();
  setLevel(levels::Info);
  boost::thread t(boost::bind(&rt_f, levels::Info, "yes"));
  rt_f(levels::Debug, "no");
  rt_f(levels::Warn, "w");
  t.join();
  expect(*r, "yes", 1); expect(*r, "no", 0); expect(*r, "w", 1);
  for (int i = 0; i < r->n; ++i) vs::check(r->lvl[i] == (r->msg[i] == "w" ? levels::Warn : levels::Info), "wrong-level", "a message is delivered with another level than its own");
  vs::log("%s", r->msg[0].c_str());
}
VS_SCENARIO(L01_runtime_level_stream, o.quick_bound = 2; o.thorough_bound = 3) {
  boost::shared_ptr<Rec> r = fresh();
  setLevel(levels::Info);
  rt_s(levels::Fatal, "first");
  boost::thread t(boost::bind(&rt_s, levels::Error, "yes"));
  rt_s(levels::Trace, "no");
  t.join();
  expect(*r, "first", 1); expect(*r, "yes", 1); expect(*r, "no", 0);
  for (int i = 0; i < r->n; ++i) vs::check(r->lvl[i] == (r->msg[i] == "yes" ? levels::Error : levels::Fatal), "wrong-level", "a message is delivered with another level than its own");
}
VS_SCENARIO(L01_runtime_level_vs_set_level, o.quick_bound = 2; o.thorough_bound = 3) {
  boost::shared_ptr<Rec> r = fresh();
  rt_f(levels::Info, "i");
  boost::thread t(boost::bind(&rt_f, levels::Warn, "maybe"));
  setLevel(levels::Error);
  t.join();
  int k = r->count("maybe");
  rt_f(levels::Warn, "no"); rt_f(levels::Info, "no"); rt_f(levels::Fatal, "yes");
  expect(*r, "no", 0); expect(*r, "yes", 1);
  vs::log("%d", k);
}
VS_SCENARIO(L01_two_configurers, o.quick_bound = 2; o.thorough_bound = 3) {
  boost::shared_ptr<Rec> r = fresh();
  named("n0"); named2("n1"); one("i");
  struct C { static void run() { enableNamedStream("x"); disableNamedStream("y"); } };
  boost::thread t(&C::run);
  enableNamedStream("y");
  setLevel(levels::Debug);
  t.join();
  vs::check(isNamedStreamEnabled("x"), "config-lost", "an enabled stream is not enabled");
  bool y = isNamedStreamEnabled("y");
  named("p"); named2("q");
  expect(*r, "p", 1); expect(*r, "q", y ? 1 : 0);
  vs::log("%d", y);
}
VS_SCENARIO(L01_configure_from_two_threads_with_statements, o.quick_bound = 2; o.thorough_bound = 3) {
  boost::shared_ptr<Rec> r = fresh();
  struct C { static void run() { named("a"); enableNamedStream("y"); } };
  boost::thread t(&C::run);
  enableNamedStream("x");
  named2("b");
  t.join();
  named("p"); named2("q");
  expect(*r, "p", 1); expect(*r, "q", 1);
  vs::log("%d%d", r->count("a"), r->count("b"));
}
VS_SCENARIO(L01_switch_logger, o.quick_bound = 2; o.thorough_bound = 3) {
  boost::shared_ptr<Rec> a = fresh(), b(new Rec);
  boost::thread t(boost::bind(&one, "m"));
  setLogger(b);
  t.join();
  vs::check(a->count("m") + b->count("m") == 1, "delivery", "a message is lost or duplicated while the logger is replaced");
  vs::log("%d", a->count("m"));
}
namespace { struct Gone : Rec { int* cnt; ~Gone() override { } void hook(const std::string&) override { ++*cnt; } }; }
VS_SCENARIO(L01_switch_logger_release, o.quick_bound = 2; o.thorough_bound = 3) {
  // the replaced logger has no other owner: it must stay alive while in use
  int* cnt = new int(0);
  { boost::shared_ptr<Gone> g(new Gone); g->cnt = cnt; setLogger(g); setLevel(levels::All); }
  boost::shared_ptr<Rec> b(new Rec);
  boost::thread t(boost::bind(&one, "m"));
  setLogger(b);
  t.join();
  vs::check(*cnt + b->count("m") == 1, "delivery", "a message is lost or duplicated while the logger is replaced");
  vs::check(getLogger() == b, "config-lost", "the logger was not replaced");
  vs::log("%d", *cnt);
}
namespace { struct Recur : Rec { void hook(const std::string& m) override { if (m != "inner") one("inner"); } }; }
VS_SCENARIO(L01_recursive, o.quick_bound = 2; o.thorough_bound = 3) {
  boost::shared_ptr<Rec> r(new Recur); setLogger(r); setLevel(levels::All);
  boost::thread t(boost::bind(&sone, "aa"));
  one("bb");
  t.join();
  expect(*r, "<aa>", 1); expect(*r, "bb", 1); expect(*r, "inner", 0);
  one("cc");
  expect(*r, "cc", 1);
}
namespace { struct Thrower : Rec { void hook(const std::string& m) override { if (m == "boom") { in = 0; throw std::runtime_error("x"); } } }; }
VS_SCENARIO(L01_throwing_logger, o.quick_bound = 2; o.thorough_bound = 3) {
  boost::shared_ptr<Rec> r(new Thrower); setLogger(r); setLevel(levels::All);
  boost::thread t(boost::bind(&one, "boom"));
  one("bb");
  t.join();
  one("cc");
  expect(*r, "bb", 1); expect(*r, "cc", 1); expect(*r, "boom", 1);
}
// more threads and statements
namespace { void pair_(const char* a, const char* b) { one(a); sone(b); }
template <int K> void stmt() { if (K % 2) { SM_INFO_NAMED(std::string("m") + char('a' + K % 3), "s%d", K); } else { SM_WARN_STREAM_NAMED(std::string("m") + char('a' + K % 3), "s" << K); } }
template <int K> struct Stmts { static void run() { Stmts<K - 1>::run(); stmt<K - 1>(); } }; template <> struct Stmts<0> { static void run() {} };
void conf() { setLevel(levels::Debug); enableNamedStream("mb"); disableNamedStream("mc"); } }
VS_SCENARIO(L01_five_threads, o.quick_bound = 0; o.thorough_bound = 1) {
  boost::shared_ptr<Rec> r = fresh();
  boost::thread t(boost::bind(&pair_, "a1", "a2")), u(boost::bind(&pair_, "b1", "b2")), v(boost::bind(&pair_, "c1", "c2")), w(boost::bind(&pair_, "d1", "d2"));
  pair_("e1", "e2");
  t.join(); u.join(); v.join(); w.join();
  for (const char* s : {"a1", "b1", "c1", "d1", "e1", "<a2>", "<b2>", "<c2>", "<d2>", "<e2>"}) expect(*r, s, 1);
  vs::check(r->n == 10, "delivery", "extra messages");
}
VS_SCENARIO(L01_many_statements_configured, o.quick_bound = 1; o.thorough_bound = 2) {
  boost::shared_ptr<Rec> r = fresh(); enableNamedStream("ma"); enableNamedStream("mc"); disableNamedStream("mb");
  Stmts<18>::run(); vs::check(r->n == 12, "delivery", "not the messages of the enabled streams"); r->n = 0;
  boost::thread t(&conf);
  Stmts<12>::run();
  t.join();
  for (int k = 0; k < 12; k += 3) { char m[8]; snprintf(m, sizeof m, "s%d", k); expect(*r, m, 1); }
  int b = 0, c = 0; for (int k = 0; k < 12; ++k) { char m[8]; snprintf(m, sizeof m, "s%d", k); int n = r->count(m); vs::check(n <= 1, "delivery", "a message is delivered twice"); if (k % 3 == 1) b += n; if (k % 3 == 2) c += n; }
  vs::log("%d %d", b, c); r->n = 0;
  Stmts<18>::run(); vs::check(r->n == 12, "config-lost", "not the messages of the streams enabled last"); for (int k = 0; k < 18; ++k) { char m[8]; snprintf(m, sizeof m, "s%d", k); expect(*r, m, k % 3 != 2); }
}

// ------------------------------------------------------------------- L04
VS_SCENARIO(L04_once_printf, o.quick_bound = 3; o.thorough_bound = 4) {
  boost::shared_ptr<Rec> r = fresh();
  boost::thread t(boost::bind(&once_f, "o"));
  once_f("o");
  t.join();
  once_f("o");
  expect(*r, "o", 1);
}
VS_SCENARIO(L04_once_stream, o.quick_bound = 3; o.thorough_bound = 4) {
  boost::shared_ptr<Rec> r = fresh();
  boost::thread t(boost::bind(&once_s, "o"));
  once_s("o");
  t.join();
  expect(*r, "o", 1);
}
VS_SCENARIO(L04_throttle_printf, o.quick_bound = 3; o.thorough_bound = 4) {
  boost::shared_ptr<Rec> r = fresh();
  boost::thread t(boost::bind(&thr_f, "o"));
  thr_f("o");
  t.join();
  thr_f("o");
  expect(*r, "o", 1);
  r->now_s += 2;
  thr_f("o");
  expect(*r, "o", 2);
}
VS_SCENARIO(L04_throttle_stream, o.quick_bound = 3; o.thorough_bound = 4) {
  boost::shared_ptr<Rec> r = fresh();
  boost::thread t(boost::bind(&thr_s, "o"));
  thr_s("o");
  t.join();
  expect(*r, "o", 1);
}
VS_SCENARIO(L04_throttle_switch_logger, o.quick_bound = 2; o.thorough_bound = 3) {
  boost::shared_ptr<Rec> a = fresh();
  boost::shared_ptr<Rec> b(new Rec);
  a.reset();
  boost::thread t(boost::bind(&thr_f, "o"));
  setLogger(b);
  t.join();
}
