// vs: stateless, preemption-bounded exploration of the real multi-threaded code.
// A scenario is a function run as thread 0 of a controlled execution.  Every
// pthread operation / atomic operation made by code linked into the harness is
// a scheduling point owned by the runtime in vs_runtime.cpp.
#pragma once
#include <cstdint>
#include <string>
namespace vs {
struct Options {
  int quick_bound = 2;      // deviations explored in the quick tier
  int thorough_bound = 3;   // ... in the thorough tier
  bool spurious = false;    // spurious condition wakeups are deviations
  bool allow_leak = false;  // threads still blocked after the body returns are fine
  bool atomic_points = true;
  long max_steps = 20000;
};
struct Scenario {
  const char* name;
  void (*body)();
  Options opt;
  Scenario* next;
  Scenario(const char* n, void (*b)(), Options o);
};
// Observation log of one execution (part of its outcome).
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Report a violated property; key identifies the violation, ends the execution.
void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
inline void check(bool ok, const char* key, const char* msg) { if (!ok) fail(key, "%s", msg); }
// An explicit scheduling point.
void point(const char* what = "user");
// All n alternatives of an environment choice are explored; alternative 0 is
// free, the others cost `cost` deviations.
int choose(int n, int cost = 0);
int self();
bool replaying();
}  // namespace vs
#define VS_CAT2(a, b) a##b
#define VS_CAT(a, b) VS_CAT2(a, b)
#define VS_SCENARIO(name, ...)                                                   \
  static void name##_body();                                                     \
  static vs::Options name##_opt() { vs::Options o; __VA_ARGS__; return o; }      \
  static vs::Scenario name##_scn(#name, &name##_body, name##_opt());             \
  static void name##_body()
