// L03: what a logger receives and prints: the exact message for every length,
// every macro and level, the formatter, level names, time strings.
#include "vf.hpp"
#include <sm/logging.hpp>
#include <sm/logging/Logger.hpp>
#include <sm/logging/LoggingEvent.hpp>
#include <sm/logging/StdOutLogger.hpp>
#include <sm/logging/Formatter.hpp>
#include <iostream>
using namespace sm::logging;
namespace {
struct Ev { std::string stream, file, fn, msg, time; int level, line; };
struct Rec : public Logger {
  std::vector<Ev> got; long us;
  Rec() : us(1234567890) {}
  Time currentTimeImplementation() const override { return Time(std::chrono::duration_cast<Duration>(std::chrono::microseconds(us))); }
  void logImplementation(const LoggingEvent& e) override {
    Ev v; v.stream = e.streamName; v.level = e.level; v.file = e.file; v.line = e.line; v.fn = e.function; v.msg = e.message; v.time = e.timestring; got.push_back(v);
  }
};
boost::shared_ptr<Rec> rec() { boost::shared_ptr<Rec> r(new Rec); setLogger(r); setLevel(levels::All); return r; }
std::string pat(size_t n, char first) { std::string s(n, 'a'); for (size_t i = 0; i < n; ++i) s[i] = 'a' + (i * 7 + i / 26) % 26; if (n) s[0] = first, s[n - 1] = 'Z'; return s; }
}
// every printf message length around the internal buffer size, followed by a
// short and preceded by any other length class
VF_PART(L03_lengths, 8) {
  boost::shared_ptr<Rec> r = rec();
  std::vector<size_t> lens;
  for (size_t i = 0; i <= 300; ++i) lens.push_back(i);
  for (size_t p = 512; p <= (c.thorough ? 1u << 20 : 1u << 16); p *= 2) for (int d = -6; d <= 6; ++d) lens.push_back(p + d);
  for (size_t i = 3900; i <= 4300; ++i) lens.push_back(i);
  std::vector<size_t> other = {0, 1, 4094, 4095, 4096, 4097, 4098, 9000};
  for (size_t a = 0; a < lens.size(); ++a) {
    if (!c.mine(a)) continue;
    std::string m = pat(lens[a], 'F');
    for (size_t b : other) for (int form = 0; form < 3; ++form) {
      std::string m2 = pat(b, 'S');
      c.cur("message of %zu characters, then of %zu, form %d", lens[a], b, form);
      r->got.clear();
      for (int k = 0; k < 2; ++k) {
        const std::string& x = k ? m2 : m;
        if (form == 0) SM_INFO("%s", x.c_str());
        else if (form == 1) SM_INFO_STREAM(x);
        else SM_INFO("<%d|%s|%5.2f>", (int)x.size(), x.c_str(), 1.5);
      }
      c.eval(lens[a] > 0); c.eval(b > 0);
      for (int k = 0; k < 2; ++k) {
        std::string x = k ? m2 : m; if (form == 2) x = "<" + std::to_string(x.size()) + "|" + x + "| 1.50>";
        if (r->got.size() != 2) { c.fail("count", "%zu events instead of 2", r->got.size()); break; }
        if (r->got[k].msg != x) c.fail("message", "message %d: %zu characters arrive instead of %zu, first difference at %zu", k, r->got[k].msg.size(), x.size(), (size_t)(std::mismatch(x.begin(), x.begin() + std::min(x.size(), r->got[k].msg.size()), r->got[k].msg.begin()).first - x.begin()));
      }
    }
  }
  if (c.shard == 0) c.sample("message of 4096 characters, then of 0, printf");
}
// a message that cannot be formatted does not show other messages' text and does no harm
VF_PART(L03_unformattable) {
  boost::shared_ptr<Rec> r = rec();
  wchar_t bad[2] = {(wchar_t)0x20ac, 0};
  for (size_t n : {0u, 1u, 10u, 4095u, 4096u, 5000u}) {
    c.cur("%zu characters, then a message with an unrepresentable wide string", (size_t)n);
    std::string m = pat(n, 'F'); r->got.clear();
    SM_INFO("%s", m.c_str());
    SM_INFO("x%ls", bad);
    SM_INFO("after %d", 1);
    c.eval();
    if (r->got.size() < 2 || r->got.back().msg != "after 1") { c.fail("later-message", "the message after it is lost or wrong"); continue; }
    for (size_t i = 1; i + 1 < r->got.size(); ++i) if (n > 2 && r->got[i].msg.find(m.substr(2)) != std::string::npos) c.fail("stale-text", "it is delivered with the text of an earlier message: '%.60s'", r->got[i].msg.c_str());
  }
}
// every form used with variables of the caller that have the names of the library's own ones, as arguments, conditions, stream names, levels and periods
namespace caller {
#define NAMES(X) X(loc) X(enabled) X(hit) X(last_hit) X(previous_hit) X(now) X(level) X(name) X(cond) X(rate) X(args) X(msg) X(s) X(n)
#define DECL(N) int N = 42;
NAMES(DECL)
#undef DECL
const volatile void* mine_; int used_, wrong_; bool short_;
template <class T> int at(const volatile T& v) { ++used_; if ((const volatile void*)&v != mine_) ++wrong_; return 42; }
template <class T> bool yes(const volatile T& v) { at(v); return true; }
template <class T> const char* stream_(const volatile T& v) { at(v); return "mc"; }
template <class T> const char* full_(const volatile T& v) { at(v); return "sm.mc"; }
template <class T> Level level_(const volatile T& v) { at(v); return levels::Warn; }
struct Form { const char* var; const char* form; int uses; void (*run)(); const volatile void* mine; };
#define ARGS(N) \
  {#N, "SM_INFO", 1, [] { SM_INFO("v=%d", at(N)); }, &N}, {#N, "SM_INFO_STREAM", 1, [] { SM_INFO_STREAM("v=" << at(N)); }, &N}, \
  {#N, "SM_INFO_NAMED", 2, [] { SM_INFO_NAMED(stream_(N), "v=%d", at(N)); }, &N}, {#N, "SM_INFO_STREAM_NAMED", 2, [] { SM_INFO_STREAM_NAMED(stream_(N), "v=" << at(N)); }, &N}, \
  {#N, "SM_INFO_COND", 2, [] { SM_INFO_COND(yes(N), "v=%d", at(N)); }, &N}, {#N, "SM_INFO_STREAM_COND", 2, [] { SM_INFO_STREAM_COND(yes(N), "v=" << at(N)); }, &N}, \
  {#N, "SM_INFO_COND_NAMED", 3, [] { SM_INFO_COND_NAMED(yes(N), stream_(N), "v=%d", at(N)); }, &N}, {#N, "SM_INFO_STREAM_COND_NAMED", 3, [] { SM_INFO_STREAM_COND_NAMED(yes(N), stream_(N), "v=" << at(N)); }, &N}, \
  {#N, "SM_INFO_ONCE", 1, [] { SM_INFO_ONCE("v=%d", at(N)); }, &N}, {#N, "SM_INFO_STREAM_ONCE", 1, [] { SM_INFO_STREAM_ONCE("v=" << at(N)); }, &N}, \
  {#N, "SM_INFO_ONCE_NAMED", 2, [] { SM_INFO_ONCE_NAMED(stream_(N), "v=%d", at(N)); }, &N}, {#N, "SM_INFO_STREAM_ONCE_NAMED", 2, [] { SM_INFO_STREAM_ONCE_NAMED(stream_(N), "v=" << at(N)); }, &N}, \
  {#N, "SM_INFO_THROTTLE", 2, [] { SM_INFO_THROTTLE(at(N) / 42., "v=%d", at(N)); }, &N}, {#N, "SM_INFO_STREAM_THROTTLE", 2, [] { SM_INFO_STREAM_THROTTLE(at(N) / 42., "v=" << at(N)); }, &N}, \
  {#N, "SM_INFO_THROTTLE_NAMED", 3, [] { SM_INFO_THROTTLE_NAMED(at(N) / 42., stream_(N), "v=%d", at(N)); }, &N}, {#N, "SM_INFO_STREAM_THROTTLE_NAMED", 3, [] { SM_INFO_STREAM_THROTTLE_NAMED(at(N) / 42., stream_(N), "v=" << at(N)); }, &N}, \
  {#N, "SM_LOG", 3, [] { SM_LOG(level_(N), full_(N), "v=%d", at(N)); }, &N}, {#N, "SM_LOG_STREAM", 3, [] { SM_LOG_STREAM(level_(N), full_(N), "v=" << at(N)); }, &N}, {#N, "SM_LOG_COND", 4, [] { SM_LOG_COND(yes(N), level_(N), full_(N), "v=%d", at(N)); }, &N},
const Form FORMS[] = {NAMES(ARGS)};
}
VF_PART(L03_argument_names) {
  boost::shared_ptr<Rec> r = rec(); enableNamedStream("mc"); enableNamedStream("sm");
  for (const caller::Form& f : caller::FORMS) {
    c.cur("%s with arguments that use a variable named %s", f.form, f.var); caller::mine_ = f.mine; caller::used_ = caller::wrong_ = 0; r->got.clear(); f.run(); c.eval();
    if (r->got.size() != 1 || r->got[0].msg != "v=42") c.fail("message", "%zu messages arrive, '%s'", r->got.size(), r->got.empty() ? "" : r->got[0].msg.c_str());
    if (caller::used_ < f.uses || caller::wrong_) c.fail("arguments", "%d of the %d arguments are not the caller's variable", caller::wrong_, caller::used_);
  }
  c.sample("SM_INFO_STREAM with arguments that use a variable named enabled");
}
// all 11 levels x 16 macros x {enabled, level too low, stream disabled, condition false}
namespace {
struct MacroCase { const char* name; int level; bool named, cond, once, thr; void (*run)(bool); int line; };
int argev, condev;
int arg() { ++argev; return 42; }
bool cnd(bool b) { ++condev; return b; }
// each instance has its own statement; all of its text is on one line
#define MC(L, lv, ID, ...) void m_##L##_##ID(bool b) { (void)b; __VA_ARGS__; }
#define MCS(L, lv) \
  MC(L, lv, p, SM_##L("v=%d", arg())) MC(L, lv, s, SM_##L##_STREAM("v=" << arg())) \
  MC(L, lv, pn, SM_##L##_NAMED("mc", "v=%d", arg())) MC(L, lv, sn, SM_##L##_STREAM_NAMED("mc", "v=" << arg())) \
  MC(L, lv, pc, SM_##L##_COND(cnd(b), "v=%d", arg())) MC(L, lv, sc, SM_##L##_STREAM_COND(cnd(b), "v=" << arg())) \
  MC(L, lv, pcn, SM_##L##_COND_NAMED(cnd(b), "mc", "v=%d", arg())) MC(L, lv, scn, SM_##L##_STREAM_COND_NAMED(cnd(b), "mc", "v=" << arg())) \
  MC(L, lv, po, SM_##L##_ONCE("v=%d", arg())) MC(L, lv, so, SM_##L##_STREAM_ONCE("v=" << arg())) \
  MC(L, lv, pon, SM_##L##_ONCE_NAMED("mc", "v=%d", arg())) MC(L, lv, son, SM_##L##_STREAM_ONCE_NAMED("mc", "v=" << arg())) \
  MC(L, lv, pt, SM_##L##_THROTTLE(1.0, "v=%d", arg())) MC(L, lv, st, SM_##L##_STREAM_THROTTLE(1.0, "v=" << arg())) \
  MC(L, lv, ptn, SM_##L##_THROTTLE_NAMED(1.0, "mc", "v=%d", arg())) MC(L, lv, stn, SM_##L##_STREAM_THROTTLE_NAMED(1.0, "mc", "v=" << arg())) \
  int line_##L() { return __LINE__; }
MCS(ALL, All)
MCS(FINEST, Finest)
MCS(VERBOSE, Verbose)
MCS(FINER, Finer)
MCS(TRACE, Trace)
MCS(FINE, Fine)
MCS(DEBUG, Debug)
MCS(INFO, Info)
MCS(WARN, Warn)
MCS(ERROR, Error)
MCS(FATAL, Fatal)
#define MR(L, lv, ID, n, co, o, t) {"SM_" #L " form " #ID, levels::lv, n, co, o, t, &m_##L##_##ID, line_##L()}
#define MRS(L, lv) MR(L, lv, p, 0, 0, 0, 0), MR(L, lv, s, 0, 0, 0, 0), MR(L, lv, pn, 1, 0, 0, 0), MR(L, lv, sn, 1, 0, 0, 0), MR(L, lv, pc, 0, 1, 0, 0), MR(L, lv, sc, 0, 1, 0, 0), \
  MR(L, lv, pcn, 1, 1, 0, 0), MR(L, lv, scn, 1, 1, 0, 0), MR(L, lv, po, 0, 0, 1, 0), MR(L, lv, so, 0, 0, 1, 0), MR(L, lv, pon, 1, 0, 1, 0), MR(L, lv, son, 1, 0, 1, 0), \
  MR(L, lv, pt, 0, 0, 0, 1), MR(L, lv, st, 0, 0, 0, 1), MR(L, lv, ptn, 1, 0, 0, 1), MR(L, lv, stn, 1, 0, 0, 1)
}
VF_PART(L03_macros) {
  boost::shared_ptr<Rec> r = rec();
  const MacroCase T[] = {MRS(ALL, All), MRS(FINEST, Finest), MRS(VERBOSE, Verbose), MRS(FINER, Finer), MRS(TRACE, Trace), MRS(FINE, Fine), MRS(DEBUG, Debug), MRS(INFO, Info), MRS(WARN, Warn), MRS(ERROR, Error), MRS(FATAL, Fatal)};
  const char* fns[] = {"m_"};
  for (const MacroCase& m : T) {
    bool printed = false;
    // the same statement in every configuration; enabled last so that ONCE and THROTTLE are still armed
    for (int cfg = 0; cfg < 12 * 2 * 2; ++cfg) {
      int lv = 11 - cfg / 4; bool stream = cfg / 2 % 2, cond = cfg % 2;
      if (lv == 11) continue;   // no such level
      c.cur("%s with level %d, stream %s, condition %d", m.name, lv, stream ? "enabled" : "disabled", cond);
      setLevel((Level)lv);
      const char* sname = m.named ? "mc" : "sm";
      if (stream) enableNamedStream(sname); else disableNamedStream(sname);
      r->got.clear(); argev = condev = 0;
      m.run(cond);
      bool en = m.level >= lv && stream;
      bool want = en && (!m.cond || cond) && !((m.once || m.thr) && printed);
      if (want) printed = true;
      c.eval(want);
      if (r->got.size() != (want ? 1 : 0)) { c.fail("delivery", "%zu events, expected %d", r->got.size(), want); continue; }
      if (argev != (want ? 1 : 0)) c.fail("arguments", "the arguments are evaluated %d times although the statement is %s", argev, want ? "printed" : "not printed");
      if (m.cond && condev != (en ? 1 : 0)) c.fail("condition", "the condition is evaluated %d times although the statement is %s", condev, en ? "enabled" : "not enabled");
      if (!want) continue;
      const Ev& e = r->got[0];
      std::string fn = std::string("m_");
      if (e.level != m.level) c.fail("level", "level %d arrives instead of %d", e.level, m.level);
      if (e.stream != (m.named ? "sm.mc" : "sm")) c.fail("stream", "stream '%s' arrives", e.stream.c_str());
      if (e.msg != "v=42") c.fail("message", "message '%s' arrives", e.msg.c_str());
      if (e.line != m.line) c.fail("line", "line %d arrives instead of %d", e.line, m.line);
      if (e.file != __FILE__) c.fail("file", "file '%s' arrives", e.file.c_str());
      if (e.fn.find("m_") == std::string::npos) c.fail("function", "function '%s' arrives", e.fn.c_str());
      if (e.time != "1234.567890") c.fail("time", "time '%s' arrives", e.time.c_str());
    }
    if ((m.once || m.thr) && !printed) c.fail("delivery", "%s never printed", m.name);
    if (m.thr) {   // next period
      c.cur("%s one period later", m.name);
      r->us += 1000000; r->got.clear(); m.run(true); if (r->got.size() != 1) c.fail("throttle", "not printed after its period");
      r->us += 999000; r->got.clear(); m.run(true); if (r->got.size()) c.fail("throttle", "printed before its period is over");
      r->us = 1234567890;
      c.eval();
    }
  }
  (void)fns;
  c.sample("SM_WARN_STREAM_COND_NAMED with level Info, stream enabled, condition 1");
}
// formatter: every sequence of format pieces against an independent expansion
namespace {
const char* COL[] = {"\033[92m", "\033[92m", "\033[92m", "\033[92m", "\033[92m", "\033[92m", "\033[32m", "\033[0m", "\033[33m", "\033[31m", "\033[91m"};
const char* SEV[] = {"  ALL", "FINES", "VERBO", "FINER", "TRACE", " FINE", "DEBUG", " INFO", " WARN", "ERROR", "FATAL"};
std::string expand(const std::string& f, const LoggingEvent& e, const std::map<std::string, std::string>& extra, const std::string& thread) {
  std::string o; size_t i = 0;
  while (i < f.size()) {
    if (f[i] == '$' && i + 1 < f.size() && f[i + 1] == '{') {
      size_t j = i + 2; while (j < f.size() && isalpha((unsigned char)f[j])) ++j;
      if (j < f.size() && f[j] == '}' && j > i + 2) {
        std::string t = f.substr(i + 2, j - i - 2);
        if (t == "message") o += e.message; else if (t == "severity") o += SEV[e.level]; else if (t == "time") o += e.timestring;
        else if (t == "file") o += e.file; else if (t == "line") o += std::to_string(e.line); else if (t == "function") o += e.function;
        else if (t == "streamname") o += e.streamName; else if (t == "thread") o += thread;
        else if (extra.count(t)) o += extra.find(t)->second; else o += "${" + t + "}";
        i = j + 1; continue;
      }
    }
    o += f[i++];
  }
  return o;
}
std::string render(Formatter& f, const LoggingEvent& e) { std::ostringstream o; f.print(e, o); return o.str(); }
}
VF_PART(L03_formatter, 8) {
  const char* P[] = {"${message}", "${severity}", "${time}", "${line}", "${file}", "${function}", "${streamname}", "${thread}", "${foo}", "${nope}", "$", "{", "}", "x", "${message", "${}", " [%s] ", "${Message}", "${a1}", "\n"};
  const int n = sizeof P / sizeof *P; int depth = c.thorough ? 4 : 3;
  std::string thread; { std::ostringstream o; o << boost::this_thread::get_id(); thread = o.str(); }
  long total = 1; std::vector<long> pw; for (int d = 0; d <= depth; ++d) { pw.push_back(total); total *= n; }
  uint64_t idx = 0;
  const LoggingEvent ev("sm.str", levels::Warn, "a/b.cpp", 123, "int f(T) [T = ${line}]", "the ${severity} $message\n%d", "12.345678");
  for (int d = 0; d <= depth; ++d) for (long k = 0; k < pw[d]; ++k) {
    if (!c.mine(idx++)) continue;
    std::string f; long x = k; for (int i = 0; i < d; ++i) { f += P[x % n]; x /= n; }
    c.cur("format %s", vf::quote(f).c_str());
    Formatter fm; fm.doColor_ = false; fm.extra_fixed_tokens_["foo"] = "<FOO>"; fm.init(f.c_str());
    std::string got = render(fm, ev), want = expand(f, ev, fm.extra_fixed_tokens_, thread) + "\n";
    c.eval(f.find("${") != std::string::npos); c.outcome(got);
    if (got != want) c.fail("expansion", "prints %s instead of %s", vf::quote(got).c_str(), vf::quote(want).c_str());
    fm.extra_fixed_tokens_["foo"] = "2"; fm.extra_fixed_tokens_["nope"] = "N";   // tokens set later count
    got = render(fm, ev); want = expand(f, ev, fm.extra_fixed_tokens_, thread) + "\n";
    if (got != want) c.fail("late-token", "prints %s instead of %s after the extra tokens changed", vf::quote(got).c_str(), vf::quote(want).c_str());
    if (d <= 2) {   // re-initialised formatter, copied formatter
      fm.init("${line}"); if (render(fm, ev) != "123\n") c.fail("reinit", "a re-initialised formatter keeps old tokens");
      Formatter* a = new Formatter; a->doColor_ = false; a->extra_fixed_tokens_["foo"] = "A"; a->init(f.c_str());
      Formatter b(*a), e; e = *a;
      std::map<std::string, std::string> ex = a->extra_fixed_tokens_;
      a->extra_fixed_tokens_["foo"] = "changed";
      delete a;
      want = expand(f, ev, ex, thread) + "\n";
      if (render(b, ev) != want) c.fail("copy", "a copied formatter prints %s instead of %s", vf::quote(render(b, ev)).c_str(), vf::quote(want).c_str());
      if (render(e, ev) != want) c.fail("copy", "an assigned formatter prints %s instead of %s", vf::quote(render(e, ev)).c_str(), vf::quote(want).c_str());
    }
  }
  if (c.shard == 0) c.sample("format \"${foo}${message$\"");
}
VF_PART(L03_severity_and_colour) {
  for (int lv = 0; lv <= 10; ++lv) for (int col = 0; col < 2; ++col) {
    c.cur("level %d colour %d", lv, col);
    boost::shared_ptr<StdOutLogger> so(new StdOutLogger);
    LoggingEvent e("s", (Level)lv, "f", 1, "fn", "msg", "1.5");
    so->formatter.doColor_ = col;
    std::string got = render(so->formatter, e), core = std::string("[") + SEV[lv] + "] [1.5]: msg";
    std::string want = col ? std::string(COL[lv]) + core + "\033[0m\n" : core + "\n";
    c.eval();
    if (got != want) c.fail("default-format", "prints %s instead of %s", vf::quote(got).c_str(), vf::quote(want).c_str());
    // the standard output logger writes exactly that
    std::ostringstream cap; std::streambuf* old = std::cout.rdbuf(cap.rdbuf());
    so->log(e); std::cout.rdbuf(old);
    if (cap.str() != want) c.fail("stdout", "the standard output logger writes %s", vf::quote(cap.str()).c_str());
  }
}
// level names: every casing of every name, everything one edit away is not a level
VF_PART(L03_level_names, 4) {
  boost::shared_ptr<Rec> r = rec();
  const char* N[] = {"all", "finest", "verbose", "finer", "trace", "fine", "debug", "info", "warn", "error", "fatal"};
  uint64_t idx = 0;
  for (int l = 0; l <= 10; ++l) {
    std::string b = N[l];
    for (unsigned m = 0; m < (1u << b.size()); ++m) {
      if (!c.mine(idx++)) continue;
      std::string s = b; for (size_t i = 0; i < s.size(); ++i) if (m >> i & 1) s[i] = toupper(s[i]);
      c.cur("level name '%s'", s.c_str()); r->got.clear();
      int g = levels::fromString(s); c.eval();
      if (g != l) c.fail("name", "'%s' is read as level %d instead of %d", s.c_str(), g, l);
      if (!r->got.empty()) c.fail("complaint", "a correct name is complained about");
    }
    std::vector<std::string> ed;
    for (size_t i = 0; i < b.size(); ++i) { std::string s = b; s.erase(i, 1); ed.push_back(s); s = b; s[i] = 'q'; ed.push_back(s); }
    for (size_t i = 0; i <= b.size(); ++i) { std::string s = b; s.insert(i, " "); ed.push_back(s); s = b; s.insert(i, "r"); ed.push_back(s); }
    for (auto& s : ed) {
      bool is = false; for (auto n : N) if (s == n) is = true;
      if (is) continue;
      c.cur("not a level name '%s'", s.c_str()); r->got.clear();
      int g = levels::fromString(s); c.eval();
      if (g != levels::Info) c.fail("name", "'%s' is read as level %d instead of the default Info", s.c_str(), g);
      if (r->got.size() != 1 || r->got[0].level != levels::Error || r->got[0].msg.find(s) == std::string::npos) c.fail("complaint", "an unknown name is not reported as an error naming it");
    }
  }
}
// stream names with and without the common prefix are the same stream
VF_PART(L03_stream_names) {
  std::vector<std::string> n = {"", "s", "sm", "sm.", "sm.x", "x", "smx", "sm_x", "x.sm", "sm.sm", "sm.sm.x", "SM.x", ".x", "x.y", "sm.x.y", " sm.x"};
  auto full = [](const std::string& s) { return s == "sm" || s.compare(0, 3, "sm.") == 0 ? s : "sm." + s; };
  for (auto& a : n) for (auto& b : n) {
    c.cur("enable '%s', ask '%s'", a.c_str(), b.c_str());
    for (auto& x : n) disableNamedStream(x);
    enableNamedStream(a);
    c.eval(full(a) == full(b));
    if (isNamedStreamEnabled(b) != (full(a) == full(b))) c.fail("enable", "the answer is %d", isNamedStreamEnabled(b));
    for (auto& x : n) enableNamedStream(x);
    disableNamedStream(a);
    if (isNamedStreamEnabled(b) != (full(a) != full(b))) c.fail("disable", "after enabling all and disabling the first the answer is %d", isNamedStreamEnabled(b));
  }
  c.sample("enable 'x', ask 'sm.x'");
}
// times: printed with microseconds, exactly
VF_PART(L03_time) {
  boost::shared_ptr<Rec> r = rec();
  std::vector<long> us;
  for (long b : {0l, 1l, 999999l, 1000000l, 1000001l, 59999999l, 1234567890l, 1500000000000000l, 2147483647000000l, 2147483648000000l, 4102444800000000l})
    for (long d : {-2l, -1l, 0l, 1l, 2l, 10l, 123456l}) us.push_back(b + d);
  for (long u : us) {
    c.cur("clock at %ld us", u);
    r->us = u; r->got.clear();
    SM_INFO("t");
    long a = labs(u); char b[64]; snprintf(b, sizeof b, "%s%ld.%06ld", u < 0 ? "-" : "", a / 1000000, a % 1000000);
    c.eval(u != 0);
    if (r->got.size() != 1) { c.fail("delivery", "not delivered"); continue; }
    if (r->got[0].time != b || r->currentTimeString() != b) c.fail("time", "prints %s instead of %s", r->got[0].time.c_str(), b);
    if (fabs(r->currentTimeSecondsUtc() - u / 1e6) > 1e-6 * 0.5) c.fail("seconds", "%.9f seconds", r->currentTimeSecondsUtc());
  }
}
