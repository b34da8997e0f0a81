// vf: driver for exhaustive sequential exploration (operation sequences, input
// grids, crash points) of the real code against reference models.
// Each VF_PART runs in a forked process; a crash, sanitizer report or hang in a
// part is a violation attributed to the case being executed.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
namespace vf {
struct Shared;
class Ctx {
 public:
  Shared* sh;
  bool thorough;
  uint64_t seed;
  int shard, nshards;
  std::unordered_set<uint64_t> seen_, outs_;
  long stop_at = -1;  // replay: stop after this case
  // Announce the next case; everything until the next call belongs to it.
  // Returns false if the case belongs to another shard (only used by mine()).
  void cur(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void cur(const std::string& s);
  // Sharding helper: true if index i belongs to this shard.
  bool mine(uint64_t i) const { return (int)(i % nshards) == shard; }
  // A distinct state of the system under test was reached; true if new.
  bool state(uint64_t h);
  bool state(const std::string& canon);
  void transition(long n = 1);
  void trace(long n = 1);            // a full behaviour compared with the reference
  void eval(bool nontrivial = true); // one evaluation (input enumeration)
  void evals(long n, long nontrivial);
  void sample(const std::string& s); // a case to show in the evidence
  void outcome(const std::string& s);
  // Report a violation. Returns normally if it is a listed known finding.
  void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  void failpl(const std::string& key, const std::string& detail);
  bool check(bool ok, const std::string& key, const std::string& detail) { if (!ok) failpl(key, detail); return ok; }
  std::string scratch();             // a private scratch directory of this part
};
struct Part {
  const char* name; void (*fn)(Ctx&); int shards; bool thorough_only;
  Part(const char* n, void (*f)(Ctx&), int sh = 1, bool t = false);
};
// Runs fn in a forked child (for code with process-wide state); its counters and
// failures are shared.  False, and a reported failure, if the child crashes or
// needs more than timeout_s seconds.
bool isolated(Ctx& c, const std::function<void()>& fn, int timeout_s = 120);
uint64_t hash(const std::string& s);
template <class T> std::string str(const T& t) { std::ostringstream o; o.precision(17); o << t; return o.str(); }
std::string quote(const std::string& s);
}  // namespace vf
#define VF_PART(name, ...)                                     \
  static void part_##name(vf::Ctx&);                           \
  static vf::Part partreg_##name(#name, &part_##name, ##__VA_ARGS__); \
  static void part_##name(vf::Ctx& c)
