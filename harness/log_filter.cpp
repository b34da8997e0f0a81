// L02: after any history of configuration calls and uses, a statement is
// delivered exactly when its level and stream are enabled, to the current logger.
// L04 (sequential part): once and throttled statements against a virtual clock.
#include "vf.hpp"
#include <deque>
#include <sm/logging.hpp>
#include <sm/logging/Logger.hpp>
#include <sm/logging/LoggingEvent.hpp>
using namespace sm::logging;
namespace {
struct Rec : public Logger {
  std::vector<std::string> got; double t;
  Rec() : t(1000) {}
  Time currentTimeImplementation() const override { return Time(std::chrono::duration_cast<Duration>(std::chrono::duration<double>(t))); }
  void logImplementation(const LoggingEvent& e) override { got.push_back(std::string(e.streamName) + "/" + std::to_string((int)e.level) + "/" + e.message); }
};
const int NS = 8;
int evals = 0;
int tick_() { ++evals; return evals; }
void hit(int i) {
  switch (i) {
    case 0: SM_INFO("s%d", 0 * tick_()); break;
    case 1: SM_DEBUG_NAMED("a", "s%d", 1 + 0 * tick_()); break;
    case 2: SM_WARN_STREAM_NAMED("b", "s" << 2 + 0 * tick_()); break;
    case 3: SM_LOG(levels::Error, "", "s%d", 3 + 0 * tick_()); break;
    case 4: SM_FATAL_STREAM("s" << 4 + 0 * tick_()); break;
    case 5: SM_LOG_STREAM_NAME("sm.b", levels::Info, "s" << 5 + 0 * tick_()); break;
    default: { Level l = i == 6 ? levels::Debug : levels::Error; SM_LOG(l, "sm.a", "s%d", i + 0 * tick_()); }
  }
}
const int LV[NS] = {levels::Info, levels::Debug, levels::Warn, levels::Error, levels::Fatal, levels::Info, levels::Debug, levels::Error};
const char* ST[NS] = {"sm", "sm.a", "sm.b", "", "sm", "sm.b", "sm.a", "sm.a"};
const int loclv[5] = {levels::All, levels::Debug, levels::Info, levels::Warn, levels::Fatal};
struct M {           // reference state
  int level; std::set<std::string> on; int logger;
  int inited; int dyn;   // which statements have been used, last dynamic level: only to distinguish implementation states
  M() : level(levels::Info), logger(0), inited(0), dyn(-1) { on.insert("sm"); }
  std::string key() const { std::string k = vf::str(level) + "|" + vf::str(logger) + "|" + vf::str(inited) + "|" + vf::str(dyn); for (auto& s : on) k += "," + s; return k; }
  bool enabled(int s) const { return LV[s] >= level && (!*ST[s] || on.count(ST[s])); }
};
struct Op { const char* name; int kind, arg; const char* s; };
// kinds: 0 setLevel 1 enable 2 disable 3 setLogger 4 hit
const Op OPS[] = {
  {"setLevel(All)", 0, levels::All, ""}, {"setLevel(Debug)", 0, levels::Debug, ""}, {"setLevel(Info)", 0, levels::Info, ""}, {"setLevel(Warn)", 0, levels::Warn, ""}, {"setLevel(Fatal)", 0, levels::Fatal, ""},
  {"enable(sm)", 1, 0, "sm"}, {"enable(a)", 1, 0, "a"}, {"enable(sm.a)", 1, 0, "sm.a"}, {"enable(b)", 1, 0, "b"},
  {"disable(sm)", 2, 0, "sm"}, {"disable(a)", 2, 0, "a"}, {"disable(sm.b)", 2, 0, "sm.b"}, {"disable(b)", 2, 0, "b"},
  {"setLogger(0)", 3, 0, ""}, {"setLogger(1)", 3, 1, ""}, {"setLogger(null)", 3, -1, ""},
  {"hit0", 4, 0, ""}, {"hit1", 4, 1, ""}, {"hit2", 4, 2, ""}, {"hit3", 4, 3, ""}, {"hit4", 4, 4, ""}, {"hit5", 4, 5, ""}, {"hit6", 4, 6, ""}, {"hit7", 4, 7, ""}};
const int NOPS = sizeof OPS / sizeof *OPS;
std::string full(const std::string& n) { return n == "sm" || n.compare(0, 3, "sm.") == 0 ? n : "sm." + n; }
void model(M& m, int o) {
  const Op& p = OPS[o];
  if (p.kind == 0) m.level = p.arg;
  else if (p.kind == 1) m.on.insert(full(p.s));
  else if (p.kind == 2) m.on.erase(full(p.s));
  else if (p.kind == 3) { if (p.arg >= 0) m.logger = p.arg; }
  else { m.inited |= 1 << std::min(p.arg, 6); if (p.arg >= 6) m.dyn = p.arg; }
}
boost::shared_ptr<Rec>* L;   // the two loggers
void expecthit(vf::Ctx& c, const M& m, int s) {
  size_t n0 = L[0]->got.size(), n1 = L[1]->got.size(); int e0 = evals;
  hit(s);
  size_t d0 = L[0]->got.size() - n0, d1 = L[1]->got.size() - n1;
  bool want = m.enabled(s);
  size_t dc = m.logger ? d1 : d0, dox = m.logger ? d0 : d1;
  if (dox) c.fail("wrong-logger", "statement %d is delivered to the logger that is not current", s);
  else if (dc != (want ? 1 : 0)) c.fail("filter", "statement %d (level %d, stream '%s') is %s although level %d is set and its stream is %s", s, LV[s], ST[s], dc ? "delivered" : "suppressed", m.level, m.on.count(ST[s]) ? "enabled" : "not enabled");
  else if (want && L[m.logger]->got.back() != std::string(ST[s]) + "/" + vf::str(LV[s]) + "/s" + vf::str(s)) c.fail("event", "statement %d arrives as '%s'", s, L[m.logger]->got.back().c_str());
  if (evals - e0 != (want ? 1 : 0)) c.fail("arguments", "the arguments of a %s statement are evaluated %d times", want ? "delivered" : "suppressed", evals - e0);
}
void real(vf::Ctx& c, M& m, int o, bool check) {
  const Op& p = OPS[o];
  if (p.kind == 4) { if (check) expecthit(c, m, p.arg); else hit(p.arg); model(m, o); return; }
  if (p.kind == 0) setLevel((Level)p.arg);
  else if (p.kind == 1) enableNamedStream(p.s);
  else if (p.kind == 2) disableNamedStream(p.s);
  else setLogger(p.arg < 0 ? boost::shared_ptr<Logger>() : L[p.arg]);
  model(m, o);
}
void probe(vf::Ctx& c, M m) {
  if (getLevel() != m.level) c.fail("level", "getLevel() is %d after setting %d", (int)getLevel(), m.level);
  const char* nm[] = {"sm", "a", "b", "sm.a", "sm.b", "c", "sm.c"};
  for (auto n : nm) if (isNamedStreamEnabled(n) != (m.on.count(full(n)) > 0)) c.fail("stream", "isNamedStreamEnabled(%s) is wrong", n);
  for (int s = 0; s < NS; ++s) { expecthit(c, m, s); }
  for (int s = NS; s-- > 0;) { expecthit(c, m, s); }
}
std::string show(const std::vector<int>& p) { std::string r; for (int o : p) r += std::string(r.empty() ? "" : " ") + OPS[o].name; return r; }
void setup() { L = new boost::shared_ptr<Rec>[2]; L[0].reset(new Rec); L[1].reset(new Rec); setLogger(L[0]); }
}  // namespace
// every (configuration, used statements) state, every operation from it
VF_PART(L02_states, 8) {
  setup();
  std::set<std::string> seen; std::deque<std::pair<M, std::vector<int>>> q;
  M m0; seen.insert(m0.key()); q.push_back({m0, {}});
  uint64_t i = 0;
  while (!q.empty()) {
    M m = q.front().first; std::vector<int> path = q.front().second; q.pop_front();
    bool mine = c.mine(i++);
    std::vector<int> np = path; np.push_back(0);
    if (mine) {
      c.state(m.key());
      c.cur("%s ; every operation, then every statement", show(path).c_str());
      vf::isolated(c, [&] {
        M r; for (int o : path) real(c, r, o, false);
        for (int o = 0; o < NOPS; ++o) {
          np.back() = o; c.cur("%s ; then every statement", show(np).c_str());
          vf::isolated(c, [&] { M s = r; real(c, s, o, true); probe(c, s); });
          c.transition(); c.trace();
        }
      }, 600);
    }
    for (int o = 0; o < NOPS; ++o) {
      M s = m; model(s, o);
      if (seen.insert(s.key()).second) { np.back() = o; q.push_back({s, np}); }
    }
  }
  if (c.shard == 0) c.sample("states " + vf::str(i));
}
// every operation sequence up to a depth, without merging
VF_PART(L02_sequences, 8) {
  setup();
  int depth = c.thorough ? 4 : 3;
  std::function<void(std::vector<int>, M)> rec = [&](std::vector<int> p, M m) {
    for (int o = 0; o < NOPS; ++o) {
      std::vector<int> np = p; np.push_back(o);
      if (np.size() == 1 && !c.mine(o)) continue;
      c.cur("%s ; then every statement", show(np).c_str());
      vf::isolated(c, [&] {
        M s = m; real(c, s, o, true);
        c.transition(); c.state(show(np));
        vf::isolated(c, [&] { probe(c, s); });
        c.trace();
        if ((int)np.size() < depth) rec(np, s);
      }, 800);
    }
  };
  rec({}, M());
  if (c.shard == 0) c.sample(show({0, 6, 17}));
}
namespace {
void o1() { SM_INFO_ONCE("o%d", 1); }
void o2() { SM_INFO_STREAM_ONCE("o" << 2); }
void o3() { SM_WARN_ONCE_NAMED("a", "o%d", 3); }
void o4() { SM_WARN_STREAM_ONCE_NAMED("a", "o" << 4); }
void t1() { SM_INFO_THROTTLE(1.0, "t%d", 1); }
void t2() { SM_INFO_STREAM_THROTTLE(1.0, "t" << 2); }
void t3() { SM_WARN_THROTTLE_NAMED(1.0, "a", "t%d", 3); }
void t4() { SM_WARN_STREAM_THROTTLE_NAMED(1.0, "a", "t" << 4); }
}
VF_PART(L04_sequences, 8) {
  boost::shared_ptr<Rec> r(new Rec); setLogger(r);
  const char* N[] = {"hit", "+0.5s", "+1s", "level=Fatal", "level=All", "toggle stream a"};
  void (*F[])() = {o1, o2, o3, o4, t1, t2, t3, t4};
  const char* W[] = {"sm/7/o1", "sm/7/o2", "sm.a/8/o3", "sm.a/8/o4", "sm/7/t1", "sm/7/t2", "sm.a/8/t3", "sm.a/8/t4"};
  int depth = c.thorough ? 7 : 6; long total = 1; for (int i = 0; i < depth; ++i) total *= 6;
  for (long k = 0; k < total; ++k) {
    if (!c.mine(k)) continue;
    std::string d; long x = k; for (int i = 0; i < depth; ++i) { d += std::string(N[x % 6]) + " "; x /= 6; }
    c.cur("%s", d.c_str());
    vf::isolated(c, [&] {
      bool low = false, a = false, once[4] = {}; double last[4] = {-1e9, -1e9, -1e9, -1e9};
      long x = k;
      for (int i = 0; i < depth; ++i, x /= 6) switch (x % 6) {
        case 1: r->t += 0.5; break;
        case 2: r->t += 1; break;
        case 3: setLevel(levels::Fatal); low = true; break;
        case 4: setLevel(levels::All); low = false; break;
        case 5: a = !a; if (a) enableNamedStream("a"); else disableNamedStream("a"); break;
        default:
          for (int f = 0; f < 8; ++f) {
            bool en = !low && (f % 4 < 2 || a);
            bool want = en && (f < 4 ? !once[f] : r->t >= last[f - 4] + 1.0);
            if (want) { if (f < 4) once[f] = true; else last[f - 4] = r->t; }
            r->got.clear(); F[f]();
            c.transition();
            if (r->got.size() != (want ? 1 : 0)) c.fail(f < 4 ? "once" : "throttle", "the %s statement %d is %s at step %d, t=%g", f < 4 ? "once" : "throttled", f, r->got.empty() ? "suppressed" : "printed", i, r->t);
            else if (want && r->got[0] != W[f]) c.fail("event", "arrives as '%s'", r->got[0].c_str());
          }
      }
      c.trace(); c.state(k);
    });
  }
  if (c.shard == 0) c.sample("hit +0.5s hit +0.5s hit level=Fatal");
}
// every once and throttle form of every level: all histories of hits, waits and configurations of a depth
namespace {
struct Form { const char* name; int level; bool named, once; double rate; void (*run)(); };
#define FO(L, ID, ...) void f_##L##_##ID() { __VA_ARGS__; }
#define FOS(L) \
  FO(L, po, SM_##L##_ONCE("v%d", tick_())) FO(L, so, SM_##L##_STREAM_ONCE("v" << tick_())) FO(L, pon, SM_##L##_ONCE_NAMED("a", "v%d", tick_())) FO(L, son, SM_##L##_STREAM_ONCE_NAMED("a", "v" << tick_())) \
  FO(L, pt, SM_##L##_THROTTLE(2.0, "v%d", tick_())) FO(L, st, SM_##L##_STREAM_THROTTLE(0.5, "v" << tick_())) FO(L, ptn, SM_##L##_THROTTLE_NAMED(1, "a", "v%d", tick_())) FO(L, stn, SM_##L##_STREAM_THROTTLE_NAMED(2.0, "a", "v" << tick_()))
FOS(ALL) FOS(FINEST) FOS(VERBOSE) FOS(FINER) FOS(TRACE) FOS(FINE) FOS(DEBUG) FOS(INFO) FOS(WARN) FOS(ERROR) FOS(FATAL)
// periods that are expressions
bool slow_ = true, fast_ = false;
FO(INFO, ptc, SM_INFO_THROTTLE(slow_ ? 2.0 : 0.5, "v%d", tick_())) FO(INFO, stc, SM_INFO_STREAM_THROTTLE(fast_ ? 2.0 : 0.5, "v" << tick_())) FO(INFO, ptnc, SM_INFO_THROTTLE_NAMED(fast_ || slow_, "a", "v%d", tick_())) FO(INFO, stnc, SM_INFO_STREAM_THROTTLE_NAMED(fast_ ? 0.5 : 2.0, "a", "v" << tick_()))
#define FR(L, lv, ID, n, o, r) {"SM_" #L " form " #ID, levels::lv, n, o, r, &f_##L##_##ID}
#define FRS(L, lv) FR(L, lv, po, 0, 1, 0), FR(L, lv, so, 0, 1, 0), FR(L, lv, pon, 1, 1, 0), FR(L, lv, son, 1, 1, 0), FR(L, lv, pt, 0, 0, 2), FR(L, lv, st, 0, 0, 0.5), FR(L, lv, ptn, 1, 0, 1), FR(L, lv, stn, 1, 0, 2)
const Form FT[] = {FRS(ALL, All), FRS(FINEST, Finest), FRS(VERBOSE, Verbose), FRS(FINER, Finer), FRS(TRACE, Trace), FRS(FINE, Fine), FRS(DEBUG, Debug), FRS(INFO, Info), FRS(WARN, Warn), FRS(ERROR, Error), FRS(FATAL, Fatal),
  FR(INFO, Info, ptc, 0, 0, 2), FR(INFO, Info, stc, 0, 0, 0.5), FR(INFO, Info, ptnc, 1, 0, 1), FR(INFO, Info, stnc, 1, 0, 2)};
}
VF_PART(L04_all_forms, 8) {
  boost::shared_ptr<Rec> r(new Rec); setLogger(r);
  const char* N[] = {"hit", "+0.5s", "+1.5s", "level=this", "level=All", "toggle stream"};
  int depth = c.thorough ? 7 : 6; long total = 1; for (int i = 0; i < depth; ++i) total *= 6; const int nf = sizeof FT / sizeof *FT;
  for (long k = 0; k < total; ++k) {
    if (!c.mine(k)) continue;
    std::string d; long x = k; for (int i = 0; i < depth; ++i) { d += std::string(N[x % 6]) + " "; x /= 6; }
    c.cur("all forms: %s", d.c_str());
    vf::isolated(c, [&] {
      std::vector<bool> done(nf); std::vector<double> last(nf, -1e9); bool on = true; int low = -1; setLevel(levels::All); enableNamedStream("a");
      long x = k;
      for (int i = 0; i <= depth; ++i, x /= 6) switch (i < depth ? x % 6 : 0) {
        case 1: r->t += 0.5; break;
        case 2: r->t += 1.5; break;
        case 3: low = low == levels::Info ? levels::Error : levels::Info; setLevel((Level)low); break;
        case 4: setLevel(levels::All); low = -1; break;
        case 5: on = !on; if (on) { enableNamedStream("a"); enableNamedStream("sm"); } else { disableNamedStream("sm.a"); disableNamedStream("sm"); } break;
        default:
          for (int f = 0; f < nf; ++f) {
            const Form& m = FT[f]; bool en = on && m.level >= low, want = en && (m.once ? !done[f] : r->t >= last[f] + m.rate);
            if (want) { done[f] = true; last[f] = r->t; }
            r->got.clear(); int e0 = evals; m.run(); c.transition();
            if (r->got.size() != (want ? 1 : 0)) c.fail(m.once ? "once" : "throttle", "%s is %s at step %d, t=%g", m.name, r->got.empty() ? "suppressed" : "printed", i, r->t);
            else if (want && r->got[0].compare(0, 2, "sm")) c.fail("event", "arrives as '%s'", r->got[0].c_str());
            else if (want && r->got[0] != std::string(m.named ? "sm.a" : "sm") + "/" + vf::str(m.level) + "/v" + vf::str(evals)) c.fail("event", "%s arrives as '%s'", m.name, r->got[0].c_str());
            if (evals - e0 != (want ? 1 : 0)) c.fail("arguments", "the arguments of %s are evaluated %d times", m.name, evals - e0);
          }
      }
      c.trace(); c.state(k);
    });
  }
  if (c.shard == 0) c.sample("all forms: hit +0.5s hit level=this hit");
}
// every pair of names: a statement of the one while the other is enabled or disabled, before and after its first use
namespace {
const char* NM[] = {"a", "s", "small", "smx", "sm_x", "sm.x", "x", "SM.x", "sm.sm", "sm", "m", "x.y", "sm.x.y", "sM", "sm.a", "b"};
const int NN = sizeof NM / sizeof *NM;
template <int I, int J> void named() { SM_INFO_NAMED(NM[I], "n%d", I); (void)J; }
template <int I, int J> void snamed() { SM_WARN_STREAM_NAMED(NM[I], "n" << I); (void)J; }
template <int... K> void table(void (**a)(), void (**b)(), std::integer_sequence<int, K...>) { void (*x[])() = {&named<K % NN, K / NN>...}; void (*y[])() = {&snamed<K % NN, K / NN>...}; std::copy(x, x + NN * NN, a); std::copy(y, y + NN * NN, b); }
}
VF_PART(L02_names) {
  boost::shared_ptr<Rec> r(new Rec); setLogger(r); setLevel(levels::All); void (*F[NN * NN])(), (*S[NN * NN])(); table(F, S, std::make_integer_sequence<int, NN * NN>());
  // a statement named n belongs to the stream "sm." n
  auto stream = [](int i) { return "sm." + std::string(NM[i]); };
  for (int i = 0; i < NN; ++i) for (int j = 0; j < NN; ++j) {
    c.cur("statement named '%s', stream '%s' enabled, disabled, enabled again", NM[i], NM[j]);
    std::set<std::string> on; for (int k = 0; k < NN; ++k) disableNamedStream(NM[k]), disableNamedStream(stream(k)); disableNamedStream("sm");
    for (int step = 0; step < 8; ++step) {
      if (step == 1 || step == 5) { enableNamedStream(NM[j]); on.insert(full(NM[j])); } if (step == 3) { disableNamedStream(NM[j]); on.erase(full(NM[j])); } if (step == 6) { enableNamedStream(stream(i)); on.insert(stream(i)); } if (step == 7) { disableNamedStream(stream(i)); on.erase(stream(i)); }
      if (step == 0 && (i + j) % 2) continue;  // first use before or after the first change
      bool want = on.count(stream(i)); r->got.clear(); F[j * NN + i](); S[j * NN + i](); c.transition(2); c.state(vf::str(i) + "," + vf::str(j) + "," + vf::str(step));
      if (r->got.size() != (want ? 2 : 0)) c.fail("filter", "%zu of 2 statements are delivered at step %d although its stream is %s", r->got.size(), step, want ? "enabled" : "not enabled");
      else if (want && (r->got[0] != stream(i) + "/7/n" + vf::str(i) || r->got[1] != stream(i) + "/8/n" + vf::str(i))) c.fail("event", "arrives as '%s' and '%s'", r->got[0].c_str(), r->got[1].c_str());
      for (int k = 0; k < NN; ++k) { if (isNamedStreamEnabled(NM[k]) != (on.count(full(NM[k])) > 0)) c.fail("stream", "isNamedStreamEnabled(%s) is wrong at step %d", NM[k], step); }
    }
    c.trace();
  }
  c.sample("statement named 'small', stream 'sm_x' enabled, disabled, enabled again");
}
// many streams and statements: each keeps its own configuration
namespace {
const int NMANY = 300;
std::string sn(int i) { return "n" + vf::str(i * 37 % 101) + (i % 3 ? "." : "_") + std::string(i % 5 * (i % 60), 'y') + vf::str(i); }
template <int I> void many() { SM_INFO_NAMED(sn(I), "m%d", I); }
template <int... K> void manytable(void (**a)(), std::integer_sequence<int, K...>) { void (*x[])() = {&many<K>...}; std::copy(x, x + NMANY, a); }
}
VF_PART(L02_many, 2) {
  boost::shared_ptr<Rec> r(new Rec); setLogger(r); setLevel(levels::All); void (*F[NMANY])(); manytable(F, std::make_integer_sequence<int, NMANY>());
  std::set<int> on; auto all = [&](int n) {
    for (int i = 0; i < n; ++i) {
      r->got.clear(); F[i](); c.transition(); bool want = on.count(i);
      if (r->got.size() != (size_t)want) c.fail("filter", "of %d statements number %d is %s although its stream is %s", n, i, want ? "suppressed" : "delivered", want ? "enabled" : "not enabled");
      else if (want && r->got[0] != "sm." + sn(i) + "/7/m" + vf::str(i)) c.fail("event", "statement %d arrives as '%s'", i, r->got[0].c_str());
      if (isNamedStreamEnabled(sn(i)) != want) c.fail("stream", "isNamedStreamEnabled(%s) is wrong", sn(i).c_str());
    } };
  for (int n = 1; n <= NMANY; ++n) {
    // statements are used for the first time before (shard 0) or after (shard 1) their stream is enabled
    c.cur("%d streams", n);
    if (c.shard == 0) { r->got.clear(); F[n - 1](); c.check(r->got.empty(), "filter", "a statement of a stream that is not enabled is delivered"); }
    enableNamedStream(sn(n - 1)); on.insert(n - 1);
    if (n % 4 == 0) { int k = n * 7 % n; disableNamedStream(sn(k)); on.erase(k); k = n / 3; disableNamedStream("sm." + sn(k)); on.erase(k); }
    if (n % 11 == 0) { int k = n / 2; enableNamedStream("sm." + sn(k)); on.insert(k); }
    if (n < 20 || n % 31 < 2 || n == NMANY || (n & (n - 1)) == 0 || ((n - 1) & (n - 2)) == 0) { all(n); c.state(vf::str(c.shard) + "/" + vf::str(n)); c.trace(); }
  }
  setLevel(levels::Warn); for (int i = 0; i < NMANY; ++i) { r->got.clear(); F[i](); c.check(r->got.empty(), "filter", "a statement below the level is delivered"); } setLevel(levels::Info); all(NMANY); c.trace();
}
// every period, from every start of the clock, used at every multiple of a step
namespace {
double g_rate;
void rp() { SM_INFO_THROTTLE(g_rate, "v%d", tick_()); }
void rs() { SM_INFO_STREAM_THROTTLE(g_rate, "v" << tick_()); }
void rl() { SM_LOG_THROTTLE(g_rate, levels::Info, "sm", "v%d", tick_()); }
void rg() { SM_LOG_STREAM_THROTTLE(g_rate, levels::Info, "sm", "v" << tick_()); }
}
VF_PART(L04_periods, 8) {
  boost::shared_ptr<Rec> r(new Rec); setLogger(r); setLevel(levels::All); void (*F[])() = {rp, rs, rl, rg}; int k = 0;
  for (double start : {0.0, 0.25, 1.0, 1000.0, 1500000000.0, 4294967296.0}) for (double rate : {0.0, 0.125, 0.5, 1.0, 1.5, 60.0, 3600.0, 86400.0, 4194304.0, 2147483648.0}) for (double step : {0.0625, 0.5, 1.0, 30.0, 1048576.0}) {
    if (!c.mine(k++)) continue;
    c.cur("clock from %g s, period %g s, a use every %g s", start, rate, step);
    vf::isolated(c, [&] {
      // the clock counts in doubles: a use within their resolution of the end of the period may be printed or not
      g_rate = rate; r->t = start; double last[4], eps = start > 1e6 ? 2e-6 : 0;
      for (int i = 0; i < 40; ++i, r->t += step) for (int f = 0; f < 4; ++f) {
        r->got.clear(); F[f](); c.transition(); bool got = !r->got.empty();
        bool may = !i || r->t - last[f] >= rate - eps, must = !i || r->t - last[f] >= rate + eps;
        if (r->got.size() > 1 || (got && !may) || (!got && must)) c.fail("throttle", "form %d is %s at use %d, t=%.9g", f, got ? "printed" : "suppressed", i, r->t);
        if (got) last[f] = r->t;
      }
    });
    c.state(k); c.trace();
  }
}
