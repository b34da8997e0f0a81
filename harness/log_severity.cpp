// L02: the log macros as compiled with each SMCONSOLE_MIN_SEVERITY and with other package names.
#include "vf.hpp"
#include "log_severity.hpp"
#include <sm/logging.hpp>
#include <sm/logging/Logger.hpp>
using namespace sm::logging;
int ls::args, ls::conds, ls::other;
namespace {
struct Rec : public Logger {
  struct Ev { std::string stream, msg; int level; }; std::vector<Ev> got; double t; Rec() : t(1000) {}
  Time currentTimeImplementation() const override { return Time(std::chrono::duration_cast<Duration>(std::chrono::microseconds((long)(t * 1e6)))); }
  void logImplementation(const LoggingEvent& e) override { Ev v; v.stream = e.streamName; v.msg = e.message; v.level = e.level; got.push_back(v); }
};
std::string name(const ls::Build& b) { return "SMCONSOLE_MIN_SEVERITY " + vf::str(b.min) + ", package " + b.package; }
}
// every statement of every build in every configuration of level, streams and condition
VF_PART(L02_compiled_severity, 8) {
  boost::shared_ptr<Rec> r(new Rec); setLogger(r); uint64_t n = 0;
  for (const ls::Build& b : ls::builds()) for (const ls::Stmt& s : b.stmts) {
    if (!c.mine(n++)) continue;
    bool printed = false; const std::string stream = b.package + (s.named ? ".mc" : "");
    for (int lv = 10; lv >= 0; --lv) for (int on = 0; on < 2; ++on) for (int cd = 0; cd < 2; ++cd) {
      c.cur("%s: %s%s with level %d, stream %s, condition %d", name(b).c_str(), s.level, s.form, lv, on ? "enabled" : "disabled", cd);
      setLevel((Level)lv); if (on) g_logging_globals.enableNamedStream(stream); else g_logging_globals.disableNamedStream(stream);
      r->got.clear(); r->t += 10; ls::args = ls::conds = 0; s.run(cd); bool there = s.severity >= b.min, en = there && s.severity >= lv && on, want = en && (!s.cond || cd) && !(s.once && printed); if (want) printed = true;
      c.check(r->got.size() == (want ? 1u : 0u), there ? "delivery" : "compiled-out", vf::str(r->got.size()) + " events"); c.check(ls::args == (want ? 1 : 0), "arguments", "evaluated " + vf::str(ls::args) + " times"); c.check(!s.cond || ls::conds == (en ? 1 : 0), "condition", "evaluated " + vf::str(ls::conds) + " times");
      if (want && r->got.size() == 1) c.check(r->got[0].stream == stream && r->got[0].level == s.severity && r->got[0].msg == "v=42", "event", r->got[0].stream + "/" + vf::str(r->got[0].level) + "/" + r->got[0].msg);
      c.eval(want); c.transition();
    }
    c.trace(); c.state(name(b) + s.level + s.form);
  }
  c.check(ls::builds().size() == 14, "builds", vf::str(ls::builds().size())); if (c.shard == 0) c.sample("SMCONSOLE_MIN_SEVERITY 8, package sm: SM_INFO_STREAM with level 0: no event, arguments not evaluated");
}
// statements as branches without braces
VF_PART(L02_branches) {
  boost::shared_ptr<Rec> r(new Rec); setLogger(r); setLevel(levels::All);
  for (const ls::Build& b : ls::builds()) { g_logging_globals.enableNamedStream(b.package); g_logging_globals.enableNamedStream(b.package + ".mc"); for (int v = 0; v < 11; ++v) for (int k = 0; k < 2; ++k) {
    c.cur("%s: level %d, branch %d", name(b).c_str(), v, k); r->got.clear(); ls::args = ls::other = 0; b.branches(v, k); unsigned w = v < b.min ? 0 : k ? 4 : 2; c.check(r->got.size() == w && ls::args == (int)w && ls::other == (k ? 0 : 2), "branches", vf::str(r->got.size()) + " events, " + vf::str(ls::other) + " other branches"); c.eval(w > 0); c.transition(4); c.trace(); c.state(name(b) + vf::str(v) + vf::str(k));
  } }
  c.sample("SMCONSOLE_MIN_SEVERITY 0, package pkg: level 7, branch 1");
}
